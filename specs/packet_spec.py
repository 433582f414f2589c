"""Contracts of the packet pool and of the datagram blocks (C16).

Pool: the free list is a queue of slot numbers, used through the channel contracts (proved under C01..C03).  For an arbitrary
slot s0 the ghost c0 counts its occurrences in the list; the slot is out when c0 == 0.  The constructor establishes "every slot
is in the list once", taking and giving preserve "at most once", so two packets that are out never share a slot.

Blocks: a step is verified against the contracts of taking, giving, the socket's send/recv and the channel operations, for an
arbitrary number of datagrams.  Element w (arbitrary) of the batch is followed through the block's local array.
"""
import re
import z3
from terms import *
from symex import *
from symex import Multi, FnPtr, Region
import queue_spec as Q

CAP = 1 << 40
_norm = norm


def norm(x):
    """simplified, but always a formula"""
    r = _norm(x)
    if isinstance(r, bool):
        return z3.BoolVal(r)
    return BV(r, x.size()) if isinstance(r, int) and z3.is_expr(x) else r


TAG = ('packet',)
nz = nbool


class M:
    pass


def meth(name):
    r = re.search(r'Lm0EE(?:(\d+)(\w+)|([CD]\d))', name)
    if not r:
        return None
    return r.group(3) or r.group(2)[:int(r.group(1))]


def chans(ex, elem):
    for n in ex.m.funcs:
        r = re.match(r'_ZNK?4cler7ChannelI(.+?)Lm0EE', n)
        if r and r.group(1) == elem and meth(n):
            yield n, meth(n)


def G(st, k):
    return st.ghost[k]


def inc(st, k, v=1):
    st.ghost[k] = norm(bv(st.ghost[k], 64) + v)


def b(x):
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def zbool(x):
    """a C++ bool as a formula"""
    x = bv(x, 8) if not (z3.is_expr(x) and z3.is_bool(x)) else x
    return x if z3.is_bool(x) else x != 0


# ------------------------------------------------------------------------------------------------ pool
def free_list(ex, m):
    def h(me):
        def f(ex, st, a, i):
            mine = isinstance(a[0], Ptr) and a[0].obj is m.slab and same(a[0].off, m.qoff)
            ex.check(st, mine, 'the free list is the pool\'s own', 'pre', tags=TAG)
            if me in ('C1', 'C2'):
                n = bv(a[1], 64)
                st.assume(n != 0)               # (the channel's constructor refuses 0)
                ex.check(st, nz(n == m.n), 'the free list can hold every slot', 'pre', tags=TAG)
                st.ghost['cap'] = n
                return None
            if me in ('D0', 'D1', 'D2'):
                return None
            cap = st.ghost['cap']
            if me == 'size':
                return G(st, 'qn')
            if me == 'space':
                return norm(cap - G(st, 'qn'))
            if me in ('push', 'try_push'):
                v = bv(ex.rd(st, st.mem[a[1].obj.id], a[1].off, 8), 64)
                ex.check(st, nz(z3.ULT(v, m.n)), 'only slot numbers enter the free list', 'pre', tags=TAG)
                ex.check(st, nz(z3.Implies(v == m.s0, G(st, 'c0') == 0)), 'a slot enters the free list once', 'pre', tags=TAG)
                full = None
                if me == 'push':
                    ex.check(st, nz(z3.ULT(G(st, 'qn'), cap)), 'giving a slot back never waits', 'pre', tags=TAG)
                elif not ex.prove(st, nz(z3.ULT(G(st, 'qn'), cap))):
                    full = st.fork()
                    full.assume(nz(z3.UGE(G(st, 'qn'), cap)))
                    st.assume(nz(z3.ULT(G(st, 'qn'), cap)))
                inc(st, 'qn')
                inc(st, 'pushes')
                st.ghost['pushed'] = norm(v)
                inc(st, 'c0', z3.If(v == m.s0, BV(1, 64), BV(0, 64)))
                if me == 'push':
                    return None
                return Multi([(st, 1)] + ([(full, 0)] if full is not None else []))
            if me in ('pop', 'try_pop'):
                e = None
                if me == 'pop':
                    ex.check(st, nz(G(st, 'qn') != 0), 'taking a slot never waits', 'pre', tags=TAG)
                elif ex.feasible(st, nz(G(st, 'qn') == 0)):
                    e = st.fork()
                    e.assume(nz(G(st, 'qn') == 0))
                st.assume(nz(G(st, 'qn') != 0))
                v = ex.fresh(st, 'slot', 64)
                st.assume(z3.And(z3.ULT(v, m.n), z3.Implies(v == m.s0, G(st, 'c0') == 1), z3.Implies(z3.And(v != m.s0, G(st, 'qn') == 1), G(st, 'c0') == 0)))
                ex.wr(st, a[1].obj, a[1].off, 8, v)
                st.ghost['popped'] = v
                inc(st, 'pops')
                inc(st, 'qn', BV(mask(64), 64))
                inc(st, 'c0', z3.If(v == m.s0, BV(mask(64), 64), BV(0, 64)))
                return Multi(([(st, 1)] if ex.feasible(st, True) else []) + ([(e, 0)] if e is not None else [])) if me == 'try_pop' else None
            raise Unsupported('free list operation %s' % me)
        return f
    for n, me in chans(ex, 'm'):
        ex.contracts[n] = h(me)


def same(a, b_):
    return eq(a, b_, 64) is True or (isinstance(a, int) and isinstance(b_, int) and a == b_)


def pool(ex, init):
    st = State()
    m = M()
    m.qoff = Q.offset(ex, 'slab__q', None)
    m.noff, m.moff, m.doff = (Q.offset(ex, 'slab__' + x, None) for x in ('n', 'max', 'data'))
    m.slab = ex.new_obj(st, 'slab', Q.constant(ex, 'slab__sizeof'), 'param', 8, init=init)
    m.n, m.max, m.s0 = (ex.fresh(st, x, 64) for x in ('slots', 'slot_size', 's0'))
    st.assume(z3.And(z3.ULE(m.n, CAP), z3.ULE(m.max, CAP), m.n != 0, z3.ULT(m.s0, m.n)))
    m.total = bv(mul(m.n, m.max, 64), 64)
    st.assume(z3.ULE(m.total, CAP))
    for k in ('pushes', 'pops'):
        st.ghost[k] = BV(0, 64)
    st.ghost['pushed'] = st.ghost['popped'] = BV(0, 64)
    free_list(ex, m)
    if init == 'sym':
        m.data = ex.new_obj(st, 'pool', m.total, 'heap', 1)
        ex.wr(st, m.slab, m.noff, 8, m.n)
        ex.wr(st, m.slab, m.moff, 8, m.max)
        ex.wr(st, m.slab, m.doff, 8, Ptr(m.data, 0))
        qn, c0 = ex.fresh(st, 'free', 64), ex.fresh(st, 'c0', 64)
        st.assume(z3.And(z3.ULE(c0, 1), z3.ULE(c0, qn), z3.ULE(qn, m.n)))
        st.ghost.update(qn=qn, c0=c0, cap=m.n)
    else:
        st.ghost.update(qn=BV(0, 64), c0=BV(0, 64), cap=BV(0, 64))
    return st, m


def ok(ex, s, what):
    if s.status == 'throw':
        ex.check(s, False, '%s does not throw' % what, 'post', tags=TAG)
        return False
    return s.status not in ('dead', 'ub')


def pool_ctor(ex):
    st, m = pool(ex, 'undef')

    def cands(ex, st0, sp, loop):
        out = [lambda s: nz(s.ghost['qn'] == s.ghost['pushes']), lambda s: nz(z3.ULE(s.ghost['qn'], m.n))]
        phis = [i for i in loop.header.insts if i.op == 'phi' and i.ty.k == 'int' and i.ty.n == 64]
        for p in phis:
            env = lambda s, p=p: bv(s.frames[-1].env[p.id], 64)
            out += [lambda s, e=env: nz(z3.ULE(e(s), m.n)), lambda s, e=env: nz(s.ghost['qn'] == e(s)), lambda s, e=env: nz(s.ghost['qn'] == m.n - e(s)),
                    lambda s, e=env: nz(s.ghost['c0'] == z3.If(z3.ULT(m.s0, e(s)), BV(1, 64), BV(0, 64))),
                    lambda s, e=env: nz(s.ghost['c0'] == z3.If(z3.UGE(m.s0, e(s)), BV(1, 64), BV(0, 64)))]
        return out
    ex.loop_cands = cands
    n = 0
    for s in ex.call_function(st, 'slab__ctor', [Ptr(m.slab, 0), m.n, m.max]):
        if s.status == 'throw' or s.status in ('dead', 'ub'):
            continue                # refused (no memory): nothing is claimed
        n += 1
        ex.check(s, nz(s.ghost['qn'] == m.n), 'a new pool offers every slot', 'post', tags=TAG)
        ex.check(s, nz(s.ghost['c0'] == 1), 'a new pool offers each slot once', 'post', tags=TAG)
        p = ex.rd(s, s.mem[m.slab.id], m.doff, 8)
        ex.check(s, isinstance(p, Ptr) and p.obj is not None and p.off == 0, 'the pool has its storage', 'post', tags=TAG)
        if isinstance(p, Ptr) and p.obj is not None:
            ex.check(s, nz(bv(p.obj.size, 64) == m.total), 'the storage has room for every slot', 'post', tags=TAG)
        for f, want in (('capacity', m.n), ('maxsize', m.max), ('available', m.n)):
            for t in ex.call_function(s.fork(), 'slab__' + f, [Ptr(m.slab, 0)]):
                if ok(ex, t, f):
                    ex.check(t, nz(bv(t.ret, 64) == want), 'a new pool reports its %s' % f, 'post', tags=TAG)
    ex.check(State(), n > 0, 'a pool can be constructed', 'post', tags=TAG)


def blob_fields(ex, s, p):
    offs = [Q.offset(ex, 'blob__' + f, None) for f in ('data', 'len', 'idx', 'owner')]
    return [ex.rd(s, s.mem[p.obj.id], add(p.off, o, 64), 8) for o in offs]


def pool_take(ex):
    st, m = pool(ex, 'sym')
    o = ex.new_obj(st, 'blob', Q.constant(ex, 'blob__sizeof'), 'param', 8)
    q0, c0 = st.ghost['qn'], st.ghost['c0']
    for s in ex.call_function(st, 'slab__take', [Ptr(m.slab, 0), Ptr(o, 0)]):
        if not ok(ex, s, 'taking a slot'):
            continue
        good = bv(s.ret, 32) == mask(32)
        g = s.ghost
        ex.check(s, nz(good == (q0 != 0)), 'taking fails exactly when every slot is out', 'post', tags=TAG)
        ex.check(s, nz(z3.If(good, z3.And(g['qn'] == q0 - 1, g['pops'] == 1), z3.And(g['qn'] == q0, g['c0'] == c0))), 'a slot taken leaves the free list, a failure changes nothing', 'post', tags=TAG)
        ex.check(s, nz(g['pushes'] == 0), 'taking gives nothing back', 'post', tags=TAG)
        if ex.feasible(s, nz(good)):
            z = s.fork()
            z.assume(good)
            d, n, idx, own = blob_fields(ex, z, Ptr(o, 0))
            v = g['popped']
            ex.check(z, nz(bv(idx, 64) == v), 'the packet names the slot taken', 'post', tags=TAG)
            ex.check(z, nz(bv(n, 64) == m.max), 'the packet has the configured size', 'post', tags=TAG)
            ex.check(z, isinstance(own, Ptr) and own.obj is m.slab and own.off == 0, 'the packet names its pool', 'post', tags=TAG)
            ex.check(z, isinstance(d, Ptr) and d.obj is m.data, 'the packet lies in the pool\'s storage', 'post', tags=TAG)
            if isinstance(d, Ptr) and d.obj is m.data:
                ex.check(z, eq(d.off, mul(v, m.max, 64), 64), 'the packet lies at its slot', 'post', tags=TAG)


def pool_give(ex, via):
    st, m = pool(ex, 'sym')
    q0 = st.ghost['qn']
    i = ex.fresh(st, 'i', 64)
    # the slot is out: not in the list, so the list is not full
    st.assume(z3.And(z3.ULT(i, m.n), z3.Implies(i == m.s0, st.ghost['c0'] == 0), z3.ULT(q0, m.n)))
    c0 = st.ghost['c0']
    if via == 'slot':
        outs = ex.call_function(st, 'slab__give', [Ptr(m.slab, 0), i])
    else:
        o = ex.new_obj(st, 'blob', Q.constant(ex, 'blob__sizeof'), 'param', 8)
        oi, oo = (Q.offset(ex, 'blob__' + f, None) for f in ('idx', 'owner'))
        ex.wr(st, o, oi, 8, i)
        ex.wr(st, o, oo, 8, Ptr(m.slab, 0))
        outs = ex.call_function(st, 'blob__release', [Ptr(o, 0)])
    for s in outs:
        if not ok(ex, s, 'giving a slot back'):
            continue
        g = s.ghost
        ex.check(s, nz(z3.And(g['pushes'] == 1, g['pops'] == 0, g['qn'] == q0 + 1)), 'giving back frees exactly one slot', 'post', tags=TAG)
        ex.check(s, nz(g['pushed'] == i), 'giving back frees the slot named', 'post', tags=TAG)
        if via == 'blob':
            own = ex.rd(s, s.mem[o.id], oo, 8)
            ex.check(s, (isinstance(own, Ptr) and own.obj is None and own.off == 0) or own == 0, 'a released packet names no pool any more', 'post', tags=TAG)


def layout(ex):
    """slots lie inside the storage and do not overlap (over the mathematical integers: n*max is bounded, so nothing wraps)"""
    ex.use_lia = False
    n, mx, u, v = z3.Ints('n max u v')
    s = State()
    s.assume(z3.And(mx >= 0, n * mx <= CAP, u >= 0, v >= 0, v < n, u < v))
    # v*max + max <= n*max and u*max + max <= v*max, by monotonicity of the product
    s.assume(z3.And(z3.Implies(n - v - 1 >= 0, (n - v - 1) * mx >= 0), z3.Implies(v - u - 1 >= 0, (v - u - 1) * mx >= 0)))
    for f, t in ((v * mx + mx <= n * mx, 'a slot lies inside the storage'), (u * mx + mx <= v * mx, 'two slots do not overlap')):
        r = z3.Solver()
        r.set('timeout', 20000)
        r.add(*s.pc, z3.Not(f))
        ex.check(State(), r.check() == z3.unsat, t, 'lemma', tags=TAG)


# ------------------------------------------------------------------------------------------------ blocks
def elem_hooks(ex, m, es):
    """follow element w of the block's local array: its content is the ghosts b_* (Blob: data/len/idx/owner, array: content id)"""
    F = m.fields

    def made(ex, st, o, sz, n):
        if sz != es:
            return
        m.vla[o.id] = o
        for f in F:
            st.ghost['b_' + f] = ex.fresh(st, 'undef_' + f, 64)
    ex.on_vla = [made]

    def put(st, cond, f, v):
        st.ghost['b_' + f] = norm(z3.If(cond, bv(v, 64), bv(st.ghost['b_' + f], 64)))

    def store(ex, st, obj, off, n, v, o):
        if obj.id not in m.vla:
            return
        st.ghost['dirty'] = z3.BoolVal(True)
        off, n_ = bv(off, 64), n
        W = m.w * es
        hit = z3.And(z3.ULT(off, W + es), z3.ULT(W, off + bv(n_, 64)))
        if es == 32 and n_ == 32:
            src = ex.copy_src if v is None else None
            vals = [num(ex, m, ex.rd(st, st.mem[src.obj.id], add(src.off, m.boff[f], 64), 8), f) if src is not None else ex.fresh(st, 'unknown', 64) for f in F]
            exact = off == W
            for f, x in zip(F, vals):
                put(st, hit, f, ex.fresh(st, 'torn', 64)) if not ex.prove(st, nz(z3.Implies(hit, exact))) else None
                put(st, exact, f, x)
            return
        if es == 32 and n_ == 8 and v is not None:
            for f in F:
                put(st, off == W + m.boff[f], f, num(ex, m, v, f))
            return
        for f in F:
            put(st, hit, f, ex.fresh(st, 'torn', 64))
    ex.hooks_store.append(store)


def num(ex, m, v, f):
    """the value of a packet field as a number"""
    if isinstance(v, Ptr):
        if f == 'data' and v.obj is m.data:
            return v.off
        if f == 'owner':
            return 1 if v.obj is m.blk and same(v.off, m.slaboff) else 2
        if f == 'owner' and v.obj is None:
            return 0
        return 3 << 50
    if f in ('data', 'owner'):
        return bv(v, 64) | (1 << 62)
    return bv(v, 64)


def cand_base(ex, m, loop, s0):
    phis = [i for i in loop.header.insts if i.op == 'phi' and i.ty.k == 'int']
    return phis


def setup_block(ex, name, es):
    st = State()
    m = M()
    m.name, m.es = name, es
    m.vla = {}
    m.w = z3.BitVec('w', 64)
    st.assume(z3.ULT(m.w, CAP))
    m.blk = ex.new_obj(st, 'block', Q.constant(ex, name + '__sizeof'), 'param', 4)
    m.sockoff = Q.offset(ex, name + '__sock', None)
    m.fdoff = Q.offset(ex, 'sock__fd', None)
    m.fd = ex.rd(st, st.mem[m.blk.id], m.sockoff + m.fdoff, 4)
    m.e = {k: Q.constant(ex, 'e__' + k) for k in ('NotEnoughSpace', 'TERM_IOError', 'ProcedureError', 'NotEnoughSamples', 'NotEnoughSpaceOrSamples')}
    m.k = {k: Q.constant(ex, 'k__' + k) for k in ('AGAIN', 'WOULDBLOCK', 'INTR', 'MSGSIZE', 'TRUNC')}
    m.total, m.max = ex.fresh(st, 'storage', 64), ex.fresh(st, 'slot_size', 64)
    st.assume(z3.And(z3.ULE(m.total, CAP), z3.ULE(m.max, m.total)))
    m.data = ex.new_obj(st, 'pool', m.total, 'heap', 1)
    m.boff = {f: Q.offset(ex, 'blob__' + f, None) for f in ('data', 'len', 'idx', 'owner')}
    m.fields = ['data', 'len', 'idx', 'owner'] if es == 32 else ['val']
    m.slaboff = None
    m.ctx = ex.new_obj(st, 'validation_context', 8, 'param', 8)
    m.cctx = ex.new_obj(st, 'callback_context', 8, 'param', 8)
    elem_hooks(ex, m, es)

    def payload(ex, st, obj, off, n, v, o):
        if obj is m.data:
            ex.check(st, False, 'the block does not write into packets itself', 'pre', tags=TAG)
    ex.hooks_store.append(payload)
    st.ghost['dirty'] = z3.BoolVal(False)
    return st, m


def is_sock(m, p):
    return isinstance(p, Ptr) and p.obj is m.blk and same(p.off, m.sockoff)


def is_ctx(p, o):
    return isinstance(p, Ptr) and p.obj is o and same(p.off, 0)


def rx(ex, name, val, cb):
    es = 32 if name == 'rx_b' else 24
    st, m = setup_block(ex, name, es)
    blob = es == 32
    T = '4Blob' if blob else 'St5arrayIhLm24EE'
    g = st.ghost
    cap = BV(CAP, 64)
    for k in ('acc', 'seen', 'del', 'sp', 'glen', 'gidx', 'goff', 'gval', 'plen', 'cur', 'coff', 'pval', 'paddr'):
        g[k] = BV(0, 64)
    for k in ('hand', 'pend', 'ioerr', 'zero', 'dry'):
        g[k] = z3.BoolVal(False)
    for f in m.fields:
        g['b_' + f] = ex.fresh(st, 'none_' + f, 64)
    m.slaboff = Q.offset(ex, name + '__slab', None)
    for s in ex.call_function(st, name + '__set', [Ptr(m.blk, 0), int(val), int(cb), Ptr(m.ctx, 0), Ptr(m.cctx, 0)]):
        st = s
    st.status, st.frames = 'run', []
    g = st.ghost
    if blob:
        m.sp_off, m.has_off = Q.offset(ex, 'rx_b__spare', None), Q.offset(ex, 'rx_b__has', None)
        bit = z3.BitVec('spare', 1)
        v0, o0 = ex.fresh(st, 'spare_slot', 64), ex.fresh(st, 'spare_off', 64)
        st.assume(z3.ULE(o0, m.total - m.max))
        ex.wr(st, m.blk, m.has_off, 1, norm(z3.ZeroExt(7, bit)))
        for f, v in (('data', Ptr(m.data, o0)), ('len', ex.fresh(st, 'old_len', 64)), ('idx', v0), ('owner', Ptr(m.blk, m.slaboff))):
            ex.wr(st, m.blk, m.sp_off + m.boff[f], 8, v)
        # a slot kept from an earlier step has the full size
        st.assume(z3.Implies(bit == 1, bv(ex.rd(st, st.mem[m.blk.id], m.sp_off + m.boff['len'], 8), 64) == m.max))
        g['hand'], g['cur'], g['coff'] = bit == 1, v0, o0
    # output
    m.out = ex.new_obj(st, 'output', 8, 'param', 8, ro=True)
    ex.wr(st, m.out, 0, 8, Ptr(ex.global_obj(st, ex.m.globals['_ZTVN4cler7ChannelI%sLm0EEE' % T]), 16))

    def accept(st):
        g = st.ghost
        hit = g['acc'] == m.w
        for a, x in (('glen', g['plen']), ('gidx', g['cur']), ('goff', g['coff']), ('gval', g['pval'])):
            g[a] = norm(z3.If(hit, x, g[a]))
        g['hand'] = z3.BoolVal(False)
        g['pend'] = z3.BoolVal(False)
        inc(st, 'acc')

    def take(ex, st, a, i):
        ex.check(st, isinstance(a[1], Ptr) and a[1].obj is m.blk and same(a[1].off, m.slaboff), 'slots come from the block\'s own pool', 'pre', tags=TAG)
        ex.check(st, nz(z3.Not(st.ghost['hand'])), 'no slot is taken while one is unused', 'pre', tags=TAG)
        e = st.fork()
        e.ghost['dry'] = z3.BoolVal(True)
        res = []
        for s in ex.call_function(e, 'tr__err', [a[0], m.e['ProcedureError']]):
            res.append((s, None))
        v, off = ex.fresh(st, 'slot', 64), ex.fresh(st, 'slot_off', 64)
        st.assume(z3.ULE(off, m.total - m.max))
        st.ghost.update(hand=z3.BoolVal(True), cur=v, coff=off)
        for s in ex.call_function(st, 'tr__ok', [a[0], Ptr(m.data, off), m.max, v, Ptr(m.blk, m.slaboff)]):
            res.append((s, None))
        for s, _ in res:
            s.status = 'run'
        return Multi(res)
    ex.contracts['_ZN4Slab9take_slotEv'] = take
    ex.contracts['_ZN4Slab12release_slotEm'] = lambda ex, st, a, i: ex.check(st, False, 'a receiving step gives no slot back itself: the free list has one producer', 'pre', tags=TAG)
    ex.contracts['_ZN4Blob7releaseEv'] = ex.contracts['_ZN4Slab12release_slotEm']

    def recv(ex, st, a, i):
        g = st.ghost
        ex.check(st, is_sock(m, a[0]), 'reception is on the block\'s own socket', 'pre', tags=TAG)
        ex.check(st, nz(z3.Not(g['pend'])), 'every datagram received is judged', 'pre', tags=TAG)
        ex.check(st, nz(bv(a[3], 32) & 0x22 == 0), 'a datagram is taken from the socket as it is', 'pre', tags=TAG)
        n = bv(a[2], 64)
        p = a[1]
        if blob:
            ex.check(st, nz(g['hand']), 'a datagram is received into a slot the block holds', 'pre', tags=TAG)
            mine = isinstance(p, Ptr) and p.obj is m.data
            ex.check(st, mine, 'a datagram is received into the pool', 'pre', tags=TAG)
            if mine:
                ex.check(st, nz(bv(p.off, 64) == g['coff']), 'a datagram is received at the start of its slot', 'pre', tags=TAG)
            ex.check(st, nz(n == m.max), 'a datagram may fill its slot and no more', 'pre', tags=TAG)
        else:
            if not ex.bound(st, p, a[2], 'reception buffer', None):
                return 0
            ex.check(st, nz(n == es), 'an array is received whole', 'pre', tags=TAG)
        r = ex.fresh(st, 'bytes', 64)
        st.assume(z3.And(r >= -4095, r <= n))
        if not blob:
            st.ghost['pval'] = ex.fresh(st, 'content', 64)
            inv = p.obj.id in m.vla
            st.ghost['paddr'] = norm(bv(p.off, 64)) if inv else BV(1 << 60, 64)
            if inv:
                off = bv(p.off, 64)
                hit = z3.And(z3.ULT(off, m.w * es + es), z3.ULT(m.w * es, off + es))
                st.ghost['b_val'] = norm(z3.If(off == m.w * es, g['pval'], z3.If(hit, ex.fresh(st, 'torn', 64), g['b_val'])))
            if inv:
                from symex import Region
        g['plen'] = r
        got = r > 0
        soft = z3.Or(*[-r == BV(v, 64) for v in sorted(set(m.k[k] for k in ('AGAIN', 'WOULDBLOCK', 'INTR', 'MSGSIZE')))])
        g['ioerr'] = norm(z3.Or(g['ioerr'], z3.And(r < 0, z3.Not(soft)))) if blob else g['ioerr']
        s2 = st.fork()
        s2.assume(z3.Not(got))
        st.assume(got)
        if val:
            st.ghost['pend'] = z3.BoolVal(True)
        else:
            accept(st)
        return Multi([(st, r), (s2, r)])
    ex.contracts['_ZNK8UDPBlock21GenericDatagramSocket4recvEPhmi'] = recv

    def shown(ex, st, p, what, want):
        """the packet/array a callback is shown is the one in question: want = (data offset, length, slot) or (content)"""
        if blob:
            vals = dict(zip(('data', 'len', 'idx', 'owner'), [num(ex, m, x, f) for x, f in zip(blob_fields(ex, st, p), ('data', 'len', 'idx', 'owner'))])) if isinstance(p, Ptr) and p.obj is not None and p.obj.id not in m.vla else None
            if vals is None and isinstance(p, Ptr) and p.obj is not None:
                return z3.And(bv(p.off, 64) == m.w * es, st.ghost['b_data'] == want[0], st.ghost['b_len'] == want[1], st.ghost['b_idx'] == want[2])
            return z3.And(bv(vals['data'], 64) == want[0], bv(vals['len'], 64) == want[1], bv(vals['idx'], 64) == want[2]) if vals else z3.BoolVal(False)
        return None

    def validate(ex, st, a, i):
        g = st.ghost
        ex.check(st, bool(val), 'only a validator that was given is called', 'pre', tags=TAG)
        ex.check(st, is_ctx(a[1], m.ctx), 'the validator gets its context', 'pre', tags=TAG)
        ex.check(st, nz(g['pend']), 'a datagram is judged once, after it is received', 'pre', tags=TAG)
        if blob:
            ex.check(st, nz(shown(ex, st, a[0], 'v', (g['coff'], g['plen'], g['cur']))), 'the validator is shown the datagram received, with its length', 'pre', tags=TAG)
        else:
            ex.check(st, nz(bv(a[0].off, 64) == g['paddr']) if a[0].obj.id in m.vla else False, 'the validator is shown the datagram received', 'pre', tags=TAG)
        s2 = st.fork()
        s2.ghost['pend'] = z3.BoolVal(False)
        accept(st)
        return Multi([(st, 1), (s2, 0)])

    def seen(ex, st, a, i):
        g = st.ghost
        ex.check(st, bool(cb), 'only a callback that was given is called', 'pre', tags=TAG)
        ex.check(st, is_ctx(a[1], m.cctx), 'the callback gets its context', 'pre', tags=TAG)
        ex.check(st, nz(z3.ULT(g['seen'], g['acc'])), 'the callback sees accepted datagrams, each once', 'pre', tags=TAG)
        if blob:
            f = shown(ex, st, a[0], 's', (g['goff'], g['glen'], g['gidx']))
        else:
            f = z3.And(bv(a[0].off, 64) == m.w * es, g['b_val'] == g['gval']) if a[0].obj.id in m.vla else z3.BoolVal(False)
        ex.check(st, nz(z3.Implies(g['seen'] == m.w, f)), 'the callback sees the accepted datagrams in order', 'pre', tags=TAG)
        inc(st, 'seen')
        return None
    for x in 'ab':
        ex.contracts['user__validate_' + x] = validate
        ex.contracts['user__seen_' + x] = seen

    def outq(me):
        def f(ex, st, a, i):
            g = st.ghost
            ex.check(st, isinstance(a[0], Ptr) and a[0].obj is m.out, 'the block uses its output', 'pre', tags=TAG)
            if me == 'space':
                n = ex.fresh(st, 'space', 64)
                st.assume(z3.And(z3.ULE(g['sp'], n), z3.ULE(n, cap)))
                g['sp'] = n
                g['zero'] = norm(z3.Or(g['zero'], n == 0))
                return n
            if me in ('writeN', 'push', 'try_push'):
                n = bv(a[2], 64) if me == 'writeN' else BV(1, 64)
                p = a[1]
                ex.check(st, nz(z3.ULE(n, g['sp'])), 'everything handed on fits the output', 'pre', tags=TAG)
                ex.check(st, nz(z3.ULE(n, g['acc'] - g['del'])), 'only accepted datagrams are handed on', 'pre', tags=TAG)
                inn = z3.And(z3.ULE(g['del'], m.w), z3.ULT(m.w, g['del'] + n))
                if isinstance(p, Ptr) and p.obj is not None and p.obj.id in m.vla:
                    ex.bound(st, p, mul(n, es, 64), 'batch handed on', None)
                    here = bv(p.off, 64) + (m.w - g['del']) * es == m.w * es
                    same_ = z3.And(g['b_data'] == g['goff'], g['b_len'] == g['glen'], g['b_idx'] == g['gidx'], g['b_owner'] == 1) if blob else g['b_val'] == g['gval']
                    ex.check(st, nz(z3.Implies(inn, z3.And(here, same_))), 'accepted datagrams are handed on in order, with their length', 'pre', tags=TAG)
                elif blob and ex.prove(st, nz(n == 1)):
                    v = {f_: bv(num(ex, m, x, f_), 64) for f_, x in zip(('data', 'len', 'idx', 'owner'), blob_fields(ex, st, p))}
                    ex.check(st, nz(z3.Implies(inn, z3.And(v['data'] == g['goff'], v['len'] == g['glen'], v['idx'] == g['gidx'], v['owner'] == 1))), 'accepted datagrams are handed on in order, with their length', 'pre', tags=TAG)
                else:
                    raise Unsupported('datagrams handed on from elsewhere')
                g['del'] = norm(g['del'] + n)
                g['sp'] = norm(g['sp'] - n)
                return {'writeN': a[2], 'push': None, 'try_push': 1}[me]
            raise Unsupported('output operation %s' % me)
        return f
    for n, me in chans(ex, T):
        ex.contracts[n] = outq(me)

    def cands(ex, st0, sp, loop):
        phis = [i for i in loop.header.insts if i.op == 'phi' and i.ty.k == 'int']
        out = [lambda s: nz(z3.Not(s.ghost['ioerr'])), lambda s: nz(z3.Not(s.ghost['pend'])), lambda s: nz(s.ghost['seen'] == s.ghost['acc']),
               lambda s: nz(s.ghost['del'] == s.ghost['acc']), lambda s: nz(z3.ULE(s.ghost['del'], s.ghost['acc']))]
        if blob:
            for f, x in (('data', 'goff'), ('len', 'glen'), ('idx', 'gidx'), ('owner', 1)):
                out.append(lambda s, f=f, x=x: nz(z3.Implies(z3.ULT(m.w, s.ghost['acc']), s.ghost['b_' + f] == (s.ghost[x] if x != 1 else 1))))
            fld = lambda s, f: ex.rd(s, s.mem[m.blk.id], m.sp_off + m.boff[f], 8)
            has = lambda s: zbool(ex.rd(s, s.mem[m.blk.id], m.has_off, 1))
            out += [lambda s: nz(s.ghost['hand'] == has(s)), lambda s: nz(z3.ULE(s.ghost['coff'], m.total - m.max)),
                    lambda s: nz(z3.ULE(bv(ex.rd(s, s.mem[m.blk.id], m.has_off, 1), 8), 1)),
                    lambda s: nz(z3.Implies(has(s), bv(num(ex, m, fld(s, 'data'), 'data'), 64) == s.ghost['coff'])),
                    lambda s: nz(z3.Implies(has(s), bv(fld(s, 'idx'), 64) == s.ghost['cur'])), lambda s: nz(z3.Implies(has(s), bv(fld(s, 'len'), 64) == m.max)),
                    lambda s: nz(z3.Implies(has(s), bv(num(ex, m, fld(s, 'owner'), 'owner'), 64) == 1))]
        else:
            out.append(lambda s: nz(z3.Implies(z3.ULT(m.w, s.ghost['acc']), s.ghost['b_val'] == s.ghost['gval'])))
        for p in phis:
            v = lambda s, p=p: s.frames[-1].env[p.id]
            if p.ty.n == 64:
                out += [lambda s, v=v: nz(bv(v(s), 64) == s.ghost['acc']), lambda s, v=v: nz(z3.ULE(s.ghost['acc'], bv(v(s), 64))), lambda s, v=v: nz(s.ghost['del'] == bv(v(s), 64))]
            elif p.ty.n == 8:
                out += [lambda s, v=v: nz(bv(v(s), 8) == 0), lambda s, v=v: nz(s.ghost['ioerr'] == (bv(v(s), 8) != 0))]
            elif p.ty.n == 1:
                out += [lambda s, v=v: nz(s.ghost['ioerr'] == zb(tobool(v(s)))), lambda s, v=v: nz(z3.Not(zb(tobool(v(s)))))]
            elif p.ty.n == 32:
                out += [lambda s, v=v: nz(bv(v(s), 32) == 0)]
        return out
    ex.loop_cands = cands
    ex.max_cands = 300
    n = 0
    valid = bv(m.fd, 32) >= 0
    for s in ex.call_function(st, name + '__proc', [Ptr(m.blk, 0), Ptr(m.out, 0)]):
        if not ok(ex, s, 'a receiving step'):
            continue
        n += 1
        g = s.ghost
        code = bv(s.ret, 32)
        ex.check(s, nz(z3.Not(g['pend'])), 'every datagram received is judged', 'post', tags=TAG)
        ex.check(s, nz(g['del'] == g['acc']), 'every accepted datagram is handed on', 'post', tags=TAG)
        if cb:
            ex.check(s, nz(g['seen'] == g['acc']), 'the callback sees every accepted datagram', 'post', tags=TAG)
        ex.check(s, nz(z3.Or(code == mask(32), z3.And(code == m.e['NotEnoughSpace'], g['zero'], g['acc'] == 0), z3.And(code == m.e['TERM_IOError'], z3.Or(z3.Not(valid), g['ioerr'])))),
                 'an error is a full output or a failed socket', 'post', tags=TAG)
        ex.check(s, nz(z3.Implies(z3.Or(z3.Not(valid), g['ioerr']), code == m.e['TERM_IOError'])), 'a failed socket is reported', 'post', tags=TAG)
        if blob:
            h = zbool(ex.rd(s, s.mem[m.blk.id], m.has_off, 1))
            ex.check(s, nz(h == g['hand']), 'no slot is lost: an unused one is kept', 'post', tags=TAG)
            f = {k: bv(num(ex, m, ex.rd(s, s.mem[m.blk.id], m.sp_off + m.boff[k], 8), k), 64) for k in ('data', 'len', 'idx', 'owner')}
            ex.check(s, nz(z3.Implies(h, z3.And(f['data'] == g['coff'], f['idx'] == g['cur'], f['len'] == m.max, f['owner'] == 1))), 'a slot kept is kept as it was taken', 'post', tags=TAG)
    ex.check(State(), n > 0, 'a step can be taken', 'post', tags=TAG)


def tx(ex, name, cb):
    es = 32 if name == 'tx_b' else 24
    st, m = setup_block(ex, name, es)
    blob = es == 32
    T = '4Blob' if blob else 'St5arrayIhLm24EE'
    m.inoff = Q.offset(ex, name + '__in', None)
    m.slab = ex.new_obj(st, 'slab', 8, 'param', 8, ro=True)
    for s in ex.call_function(st, name + '__set', [Ptr(m.blk, 0), int(cb), Ptr(m.cctx, 0)]):
        st = s
    st.status, st.frames = 'run', []
    g = st.ghost
    for k in ('pos', 'av', 'av0', 'sent', 'seen', 'rels', 'rel0'):
        g[k] = BV(0, 64)
    for f in m.fields:
        g['b_' + f] = ex.fresh(st, 'none_' + f, 64)
    g['failed'] = z3.BoolVal(False)
    g['looked'] = z3.BoolVal(False)
    cap = BV(CAP, 64)
    U = {f: z3.Function('in_' + f, bvs(64), bvs(64)) for f in ('data', 'len', 'idx')}

    def inst(st, j):
        """packet j of the input lies in its slot"""
        st.assume(z3.And(z3.ULE(U['len'](j), m.max), z3.ULE(U['data'](j), m.total - m.max)))

    def content(base, es_):
        def fn(ex, st, rel, n):
            c, d = linear(norm(bv(rel, 64)) if not isinstance(rel, int) else rel)
            if blob and n == 8 and all(sgn(x[1], 64) % 32 == 0 for x in d.values()) and c % 8 == 0:
                f = next((k for k in m.boff if m.boff[k] == c % 32), None)
                j = bv(base, 64) + z3.UDiv(bv(rel, 64) - (c % 32), BV(32, 64)) if not d else bv(base, 64) + bv(unlinear(c // 32, {k: (v[0], sgn(v[1], 64) // 32) for k, v in d.items()}), 64)
                j = norm(j)
                if f == 'owner':
                    return Ptr(m.slab, 0)
                inst(st, bv(j, 64))
                return Ptr(m.data, U['data'](bv(j, 64))) if f == 'data' else U[f](bv(j, 64))
            return ex.fresh(st, 'raw', 8 * n)
        return fn

    def index(ex, st, p):
        """which packet of the batch p is"""
        if p.obj is not None and p.obj.id in m.vla:
            c, d = linear(norm(bv(p.off, 64)) if not isinstance(p.off, int) else p.off)
            if all(sgn(x[1], 64) % es == 0 for x in d.values()) and c % es == 0:
                return bv(unlinear(c // es, {k: (v[0], sgn(v[1], 64) // es) for k, v in d.items()}), 64)
            return None
        if blob and p.obj is not None:
            v = ex.rd(st, st.mem[p.obj.id], add(p.off, m.boff['idx'], 64), 8)
            if z3.is_expr(v) and v.decl().name() == 'in_idx':
                return v.arg(0)
        return None

    def inq(me):
        def f(ex, st, a, i):
            g = st.ghost
            ex.check(st, isinstance(a[0], Ptr) and a[0].obj is m.blk and same(a[0].off, m.inoff), 'the block uses its input', 'pre', tags=TAG)
            if me == 'size':
                n = ex.fresh(st, 'size', 64)
                st.assume(z3.And(z3.ULE(g['av'], n), z3.ULE(n, cap)))
                g['av'] = n
                g['av0'] = norm(z3.If(g['looked'], g['av0'], n))
                g['looked'] = z3.BoolVal(True)
                return n
            if me == 'readN':
                n = bv(a[2], 64)
                ex.check(st, nz(z3.ULE(n, g['av'])), 'no more is read than is there', 'pre', tags=TAG)
                if not ex.bound(st, a[1], mul(n, es, 64), 'batch read', None):
                    return a[2]
                if a[1].obj.id not in m.vla or not ex.prove(st, eq(a[1].off, mul(g['pos'], es, 64), 64)):
                    raise Unsupported('packets read elsewhere')
                ex.region(st, a[1].obj, a[1].off, mul(n, es, 64), content(g['pos'], es))
                g['dirty'] = z3.BoolVal(False)
                g['pos'] = norm(g['pos'] + n)
                g['av'] = norm(g['av'] - n)
                return a[2]
            raise Unsupported('input operation %s' % me)
        return f
    for n, me in chans(ex, T):
        ex.contracts[n] = inq(me)

    def send(ex, st, a, i):
        g = st.ghost
        ex.check(st, is_sock(m, a[0]), 'sending is on the block\'s own socket', 'pre', tags=TAG)
        ex.check(st, nz(z3.ULT(g['sent'], g['pos'])), 'only packets read are sent', 'pre', tags=TAG)
        p, n = a[1], bv(a[2], 64)
        if blob:
            mine = isinstance(p, Ptr) and p.obj is m.data
            ex.check(st, mine, 'what is sent is a packet', 'pre', tags=TAG)
            if mine:
                ex.check(st, nz(z3.And(bv(p.off, 64) == U['data'](g['sent']), n == U['len'](g['sent']))), 'packets are sent in order, whole', 'pre', tags=TAG)
            ex.check(st, nz(z3.Implies(g['sent'] == m.w, g['rel0'] == 0)), 'a packet is sent before its slot goes back', 'pre', tags=TAG)
        else:
            ex.check(st, nz(z3.And(bv(p.off, 64) == g['sent'] * es, n == es, z3.Not(g['dirty']))) if isinstance(p, Ptr) and p.obj is not None and p.obj.id in m.vla else False, 'arrays are sent in order, whole', 'pre', tags=TAG)
        inc(st, 'sent')
        r = ex.fresh(st, 'sent_bytes', 64)
        s2 = st.fork()
        st.assume(r == n)
        s2.assume(r == BV(mask(64), 64))
        s2.ghost['failed'] = z3.BoolVal(True)
        return Multi([(st, r), (s2, r)])
    ex.contracts['_ZNK8UDPBlock21GenericDatagramSocket4sendEPKhm'] = send

    def seen(ex, st, a, i):
        g = st.ghost
        ex.check(st, bool(cb), 'only a callback that was given is called', 'pre', tags=TAG)
        ex.check(st, is_ctx(a[1], m.cctx), 'the callback gets its context', 'pre', tags=TAG)
        j = index(ex, st, a[0])
        ex.check(st, nz(j == g['seen']) if j is not None else False, 'the callback sees the packets in order, each once', 'pre', tags=TAG)
        ex.check(st, nz(z3.Implies(g['seen'] == m.w, g['rel0'] == 0)), 'the callback sees a packet before its slot goes back', 'pre', tags=TAG)
        inc(st, 'seen')
        return None
    for x in 'ab':
        ex.contracts['user__seen_' + x] = seen

    def release(ex, st, a, i):
        g = st.ghost
        j = index(ex, st, a[0])
        ex.check(st, j is not None, 'what is released is a packet of the batch', 'pre', tags=TAG)
        if j is None:
            return None
        ex.check(st, nz(z3.ULT(j, g['pos'])), 'what is released is a packet of the batch', 'pre', tags=TAG)
        ex.check(st, nz(z3.Implies(j == m.w, g['rel0'] == 0)), 'a slot goes back once', 'pre', tags=TAG)
        ex.check(st, nz(z3.Or(z3.ULT(j, g['sent']), g['failed'])), 'a slot goes back when its packet is sent, or cannot be', 'pre', tags=TAG)
        g['rel0'] = norm(g['rel0'] + z3.If(j == m.w, BV(1, 64), BV(0, 64)))
        inc(st, 'rels')
        return None
    ex.contracts['_ZN4Blob7releaseEv'] = release

    def cands(ex, st0, sp, loop):
        phis = [i for i in loop.header.insts if i.op == 'phi' and i.ty.k == 'int' and i.ty.n == 64]
        f0 = st0.ghost['failed']
        out = [lambda s: nz(s.ghost['failed'] == f0), lambda s: nz(s.ghost['seen'] == s.ghost['sent']), lambda s: nz(s.ghost['rels'] == s.ghost['sent']), lambda s: nz(z3.Not(s.ghost['dirty'])),
               lambda s: nz(z3.ULE(s.ghost['sent'], s.ghost['pos'])), lambda s: nz(z3.ULE(s.ghost['rel0'], 1)),
               lambda s: nz((s.ghost['rel0'] == 1) == z3.ULT(m.w, s.ghost['sent'])), lambda s: nz((s.ghost['rel0'] == 1) == z3.ULT(m.w, s.ghost['rels']))]
        for p in phis:
            v = lambda s, p=p: bv(s.frames[-1].env[p.id], 64)
            out += [lambda s, v=v: nz(v(s) == s.ghost['sent']), lambda s, v=v: nz(v(s) == s.ghost['rels']), lambda s, v=v: nz((s.ghost['rel0'] == 1) == z3.ULT(m.w, v(s))), lambda s, v=v: nz(v(s) == s.ghost['seen'])]
        return out
    ex.loop_cands = cands
    ex.max_cands = 300
    valid = bv(m.fd, 32) >= 0
    n = 0
    for s in ex.call_function(st, name + '__proc', [Ptr(m.blk, 0)]):
        if not ok(ex, s, 'a sending step'):
            continue
        n += 1
        g = s.ghost
        code = bv(s.ret, 32)
        ex.check(s, nz(z3.Implies(valid, z3.And(g['looked'], z3.UGE(g['pos'], g['av0'])))), 'a step takes every packet that was there', 'post', tags=TAG)
        ex.check(s, nz(z3.Implies(z3.Not(g['failed']), g['sent'] == g['pos'])), 'every packet taken is sent', 'post', tags=TAG)
        if cb:
            ex.check(s, nz(g['seen'] == g['sent']), 'the callback sees every packet sent', 'post', tags=TAG)
        if blob:
            ex.check(s, nz(z3.Implies(z3.ULT(m.w, g['pos']), g['rel0'] == 1)), 'the slot of every packet taken goes back, once', 'post', tags=TAG)
        ex.check(s, nz(z3.If(z3.Or(z3.Not(valid), g['failed']), code == m.e['TERM_IOError'], code == mask(32))), 'a failed socket is reported, and nothing else', 'post', tags=TAG)
    ex.check(State(), n > 0, 'a step can be taken', 'post', tags=TAG)


# ------------------------------------------------------------------------------------------------ socket
def sock(ex, what):
    st = State()
    so = ex.new_obj(st, 'socket', Q.constant(ex, 'sock__sizeof'), 'param', 4)
    fd = bv(ex.rd(st, st.mem[so.id], Q.offset(ex, 'sock__fd', None), 4), 32)
    ty = bv(ex.rd(st, st.mem[so.id], Q.offset(ex, 'sock__type', None), 4), 32)
    K = {k: Q.constant(ex, 'k__' + k) for k in ('INET', 'INET6', 'UNIX', 's4', 's6', 'su', 'MSGSIZE', 'TRUNC')}
    n = ex.fresh(st, 'len', 64)
    st.assume(z3.ULE(n, CAP))
    buf = ex.new_obj(st, 'buffer', n, 'param', 1)
    err = ex.fresh(st, 'errno', 32)
    st.assume(z3.And(err > 0, err < 4096))
    eo = ex.new_obj(st, 'errno', 4, 'param', 4)
    ex.contracts['__errno_location'] = lambda ex, st, a, i: Ptr(eo, 0)
    st.ghost['calls'] = BV(0, 64)
    st.ghost['res'] = BV(0, 64)
    st.ghost['trunc'] = z3.BoolVal(False)
    if what == 'recv':
        off = {k: Q.offset(ex, k, None) for k in ('msg__iov', 'msg__iovlen', 'msg__flags', 'iov__base', 'iov__len')}
        flags = ex.fresh(st, 'flags', 32)

        def recvmsg(ex, st, a, i):
            ex.check(st, nz(bv(a[0], 32) == fd), 'reception is on the socket', 'pre', tags=TAG)
            ex.check(st, nz(bv(a[2], 32) == flags), 'reception has the flags given', 'pre', tags=TAG)
            mo, o = a[1].obj, a[1].off
            r = lambda k, sz: ex.rd(st, st.mem[mo.id], add(o, off[k], 64), sz)
            v = r('msg__iov', 8)
            ex.check(st, isinstance(v, Ptr) and v.obj is not None, 'the message has a buffer', 'pre', tags=TAG)
            ex.check(st, nz(bv(r('msg__iovlen', 8), 64) == 1), 'the message has one buffer', 'pre', tags=TAG)
            bp = ex.rd(st, st.mem[v.obj.id], add(v.off, off['iov__base'], 64), 8)
            bl = ex.rd(st, st.mem[v.obj.id], add(v.off, off['iov__len'], 64), 8)
            ex.check(st, isinstance(bp, Ptr) and bp.obj is buf and same(bp.off, 0), 'the buffer given is the one filled', 'pre', tags=TAG)
            ex.check(st, nz(bv(bl, 64) == n), 'the whole buffer and no more is offered', 'pre', tags=TAG)
            inc(st, 'calls')
            x = ex.fresh(st, 'got', 64)
            s2 = st.fork()
            s2.assume(x == BV(mask(64), 64))
            ex.wr(s2, eo, 0, 4, err)
            s2.ghost['res'] = x
            st.assume(z3.And(x >= 0, x <= n))
            st.ghost['res'] = x
            mf = ex.fresh(st, 'msg_flags', 32)
            ex.wr(st, mo, add(o, off['msg__flags'], 64), 4, mf)
            st.ghost['trunc'] = (mf & K['TRUNC']) != 0
            return Multi([(st, x), (s2, x)])
        ex.contracts['recvmsg'] = recvmsg
        args = [Ptr(so, 0), Ptr(buf, 0), n, flags]
    else:
        dst = {k: Q.offset(ex, 'sock__' + k, None) for k in ('in4', 'in6', 'un')}

        def sendto(ex, st, a, i):
            ex.check(st, nz(bv(a[0], 32) == fd), 'sending is on the socket', 'pre', tags=TAG)
            ex.check(st, isinstance(a[1], Ptr) and a[1].obj is buf and same(a[1].off, 0), 'the data given is what is sent', 'pre', tags=TAG)
            ex.check(st, nz(bv(a[2], 64) == n), 'the whole of the data is sent', 'pre', tags=TAG)
            d, l = a[4], bv(a[5], 32)
            w = [z3.And(ty == K[t], b(isinstance(d, Ptr) and d.obj is so and same(d.off, dst[o])), l == K[s]) for t, o, s in (('INET', 'in4', 's4'), ('INET6', 'in6', 's6'), ('UNIX', 'un', 'su'))]
            ex.check(st, nz(z3.Or(*w)), 'the destination is the one of the socket\'s family', 'pre', tags=TAG)
            inc(st, 'calls')
            x = ex.fresh(st, 'out', 64)
            st.ghost['res'] = x
            return x
        ex.contracts['sendto'] = sendto
        args = [Ptr(so, 0), Ptr(buf, 0), n]
        ex.contracts['_ZNSt13runtime_errorC1EPKc'] = lambda ex, st, a, i: None
    k = 0
    known = z3.Or(*[ty == K[t] for t in ('INET', 'INET6', 'UNIX')])
    for s in ex.call_function(st, 'sock__' + what, args):
        g = s.ghost
        if s.status == 'throw':
            ex.check(s, nz(z3.Not(known)) if what == 'send' else False, 'a socket of a known family does not throw', 'post', tags=TAG)
            continue
        if s.status in ('dead', 'ub'):
            continue
        k += 1
        ex.check(s, nz(g['calls'] == 1), 'one datagram per call', 'post', tags=TAG)
        r = bv(s.ret, 64)
        if what == 'send':
            ex.check(s, nz(r == g['res']), 'the outcome of sending is passed on', 'post', tags=TAG)
        else:
            ex.check(s, nz(z3.If(g['res'] < 0, r == -z3.SignExt(32, err), z3.If(g['trunc'], r == -BV(K['MSGSIZE'], 64), r == g['res']))),
                     'the length, the reason of a failure, or truncation is passed on', 'post', tags=TAG)
    ex.check(State(), k > 0, 'the call can return', 'post', tags=TAG)
