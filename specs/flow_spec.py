"""Contracts of the execution loops (cler::FlowGraph): thread-per-block loop, micro-batch execution, pool worker, run/stop.

The block's procedure, the task policy and the termination callback are assumed contracts at the call sites; every clause of
C12/C13 is checked where the loop calls them, against ghost state that records the history of outcomes:
  stop     the stop flag is known to be set            running  it was read as false since the previous procedure call
  fatal    a fatal outcome happened                     cbn      callback invocations
  last     last outcome 0 none 1 ok 2 starved 3 soft 4 fatal       ncall/ok/bad  counters of this run / tick
  pend     a success whose decay is not recorded yet    cons     consecutive starved calls
  prev     back-off (microseconds, bits of a double) before the pending change      F  recorded failures at the last call
  slept    slept since the last call                    burst    calls of the current burst
The stop flag is volatile: every load may see it become true (it never becomes false during a run).
"""
import z3
from terms import *
from symex import *
import queue_spec as Q

F64 = z3.Float64()
STARVED = ('NotEnoughSamples', 'NotEnoughSpace', 'NotEnoughSpaceOrSamples')
FATALS = ('TERMINATE_FLOWGRAPH', 'TERM_EOFReached', 'TERM_IOError', 'TERM_ProcedureError', 'TERM_InvalidChannelIndex')
SOFT = ('ProcedureError', 'BadData', 'Unknown', 'OK')
NUM = ('last', 'ncall', 'cons', 'prev', 'F', 'burst', 'cbn')
BOOLS = ('stop', 'running', 'fatal', 'pend', 'slept')


class M:
    pass


# predicates on the bits of a double; opaque to the history argument, given their meaning in the arithmetic obligations
FIN = z3.Function('fin_range', bvs(64), z3.BoolSort())
FINM = z3.Function('fin_multiplier', bvs(64), z3.BoolSort())
LE = z3.Function('fin_le', bvs(64), bvs(64), z3.BoolSort())


def b0(x):
    return z3.BoolVal(x)


def fp(bits):
    return bits_to_fp(bv(bits, 64), F64)


def fpc(x):
    return z3.FPVal(x, F64)


def half(ex, st, bits):
    ty = _dbl()
    return ex.fop(st, 'fmul', [bits, _bits(0.5)], ty)


class _D:
    k = 'double'
    size = 8


def _dbl():
    return _D


def _bits(x):
    import struct
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def finite(bits, lo, hi):
    x = fp(bits)
    return z3.And(z3.Not(z3.fpIsNaN(x)), z3.fpLEQ(fpc(lo), x), z3.fpLEQ(x, fpc(hi)), z3.Not(z3.And(z3.fpIsZero(x), z3.fpIsNegative(x))))


def setup(ex, tag, nblk, sleep, cb=True, detailed=None):
    st = State()
    m = M()
    m.tag, m.nblk, m.sleep = tag, nblk, sleep
    C = lambda n: Q.constant(ex, n)
    m.g = ex.new_obj(st, 'graph', C(tag + '__sizeof'))
    m.cfg = ex.new_obj(st, 'config', C('f__sizeof_cfg'))
    off = lambda n: Q.offset(ex, n, None)
    m.o = {k: off('%s__at_%s' % (tag, k)) for k in ('stop', 'config', 'cb', 'ctx', 'active', 'stats', 'tasks', 'queues', 'q_blocks', 'q_count', 'q_current', 'q1', 'owner', 's_blocks', 's_workers')}
    m.c = {k: off('f__at_c_' + k) for k in ('scheduler', 'num_workers', 'adaptive', 'mult', 'max', 'threshold', 'detailed', 'calls', 'pin')}
    m.s = {k: off('s__at_' + k) for k in ('ok', 'bad', 'cur', 'fails', 'name')}
    m.ssz = C('s__sizeof')
    m.n = C(tag + '__n')
    m.err = {e: C('e__' + e) for e in STARVED + FATALS + SOFT}
    # configuration, equal in the argument and in the graph (run() stores it: its contract)
    m.adaptive, m.detailed, m.pin = z3.Bool('adaptive_sleep'), z3.Bool('detailed_stats'), z3.Bool('pin_workers')
    if detailed is not None:
        m.detailed = b0(detailed)
    m.max, m.mult = z3.BitVec('max_us', 64), z3.BitVec('multiplier', 64)
    m.thr, m.calls = z3.BitVec('threshold', 64), z3.BitVec('max_calls', 64)
    m.workers, m.sched = z3.BitVec('num_workers', 64), z3.BitVec('scheduler', 32)
    st.assume(z3.UGE(m.calls, BV(1, 64)))
    st.assume(z3.ULE(m.calls, BV(1 << 40, 64)))
    st.assume(z3.ULE(m.thr, BV(1 << 40, 64)))
    st.assume(z3.ULE(m.sched, BV(1, 32)))
    if sleep:
        st.assume(FIN(m.max))
        st.assume(FINM(m.mult))
    for o, base in ((m.cfg, 0), (m.g, m.o['config'])):
        for k, w, v in (('scheduler', 4, m.sched), ('num_workers', 8, m.workers), ('adaptive', 1, ite(m.adaptive, 1, 0, 8)), ('mult', 8, m.mult), ('max', 8, m.max),
                        ('threshold', 8, m.thr), ('detailed', 1, ite(m.detailed, 1, 0, 8)), ('calls', 8, m.calls), ('pin', 1, ite(m.pin, 1, 0, 8))):
            ex.wr(st, o, base + m.c[k], w, norm(bv(v, 8 * w)))
    # blocks and their outputs
    b0o = off(tag + '__at_block0')
    m.bstride = off(tag + '__at_block1') - b0o
    m.blk, m.out = [], []
    sb = C('f__sizeof_b')
    for i in range(nblk):
        m.blk.append(ex.new_obj(st, 'block%d' % i, sb, init='zero'))
        m.out.append(ex.new_obj(st, 'output%d' % i, 8))
        ex.wr(st, m.g, b0o + i * m.bstride, 8, Ptr(m.blk[i], 0))
        ex.wr(st, m.g, off(tag + '__at_out0') + i * m.bstride, 8, Ptr(m.out[i], 0))
    m.ctxobj = ex.new_obj(st, 'context', 8)
    m.cbset = cb
    ex.wr(st, m.g, m.o['cb'], 8, FnPtr('user__callback') if cb else Ptr(None, 0))
    ex.wr(st, m.g, m.o['ctx'], 8, Ptr(m.ctxobj, 0))
    # statistics
    m.ok0, m.bad0 = [], []
    for i in range(nblk):
        a, b, c, f = (z3.BitVec('%s%d' % (n, i), 64) for n in ('ok', 'bad', 'cur', 'fails'))
        st.assume(z3.ULE(a, BV(1 << 52, 64)))
        st.assume(z3.ULE(b, BV(1 << 52, 64)))
        st.assume(z3.ULE(f, BV(1 << 52, 64)))
        if sleep:
            st.assume(FIN(c))
        m.ok0.append(a)
        m.bad0.append(b)
        for k, v in (('ok', a), ('bad', b), ('cur', c), ('fails', f)):
            ex.wr(st, m.g, stat(m, i, k), 8, v)
    if sleep:
        ex.fp_extra = {'fin_range': lambda x: finite(x, 0.0, 1e12), 'fin_multiplier': lambda x: finite(x, 1.25, 1e6), 'fin_le': lambda a, b: z3.fpLEQ(fp(a), fp(b))}
        x = z3.BitVec('x', 64)
        ex.check(st, nbool(z3.Implies(FIN(x), FIN(bv(half(ex, st, x), 64)))), 'lemma: half of a back-off is a back-off', 'lemma', tags=('sleep', 'fp'))
    st.ghost.update({'stop': b0(False), 'running': b0(False), 'fatal': b0(False), 'pend': b0(False), 'slept': b0(False)})
    st.ghost.update({'last': BV(0, 64), 'ncall': BV(0, 64), 'cons': BV(0, 64), 'burst': BV(0, 64), 'cbn': BV(0, 64), 'prev': BV(0, 64), 'F': BV(0, 64)})
    for i in range(nblk):
        st.ghost['ok%d' % i] = BV(0, 64)
        st.ghost['bad%d' % i] = BV(0, 64)
    stop0 = z3.Bool('stop_requested_before')
    ex.wr(st, m.g, m.o['stop'], 1, norm(z3.If(stop0, BV(1, 8), BV(0, 8))))
    st.ghost['stop'] = stop0
    return st, m


def stat(m, i, k):
    return m.o['stats'] + i * m.ssz + m.s[k]


def cell(ex, st, m, i, k):
    return ex.rd(st, st.mem[m.g.id], stat(m, i, k), 8)


def begin(ex, st, m, i):
    """start of a run of block i: the recorded failure count is by definition the current run of failures"""
    st.ghost['prev'] = bv(cell(ex, st, m, i, 'cur'), 64)
    st.ghost['F'] = bv(cell(ex, st, m, i, 'fails'), 64)
    st.ghost['cons'] = st.ghost['F']


def facts(ex, st, m, i):
    """the states the recorded back-off may be in, relative to the history"""
    g = st.ghost
    f, c = bv(cell(ex, st, m, i, 'fails'), 64), bv(cell(ex, st, m, i, 'cur'), 64)
    if not isinstance(g['prev'], int):
        h = bv(half(ex, st, g['prev']), 64)
    else:
        h = bv(half(ex, st, g['prev']), 64)
    L = bv(g['last'], 64)
    must = z3.And(L == 2, z3.UGT(bv(g['cons'], 64), m.thr))
    d = {}
    d['quiet'] = z3.And(f == bv(g['cons'], 64), c == bv(g['prev'], 64), g['slept'] == must)
    d['acked'] = z3.And(f == 0, c == h, z3.Not(g['slept']))
    d['unacked'] = z3.And(L == 1, f == bv(g['F'], 64), c == bv(g['prev'], 64), z3.Not(g['slept']))
    return d


def observe(ex, st, m, i, at_call):
    """the back-off recorded since the last outcome is the one the history demands"""
    g = st.ghost
    if not m.sleep:
        return
    d = facts(ex, st, m, i)
    un = z3.And(d['unacked'], z3.ULT(bv(g['burst'], 64), m.calls)) if at_call else b0(False)
    A = m.adaptive
    ex.check(st, nbool(z3.Implies(z3.And(A, g['pend']), z3.Or(d['acked'], un))), 'progress clears the failure count and halves the back-off once per tick', 'post', tags=('sleep',))
    ex.check(st, nbool(z3.Implies(z3.And(A, z3.Not(g['pend'])), bv(cell(ex, st, m, i, 'fails'), 64) == bv(g['cons'], 64))), 'the failure count is the number of consecutive starved calls', 'post', tags=('sleep',))
    must = z3.And(bv(g['last'], 64) == 2, z3.UGT(bv(g['cons'], 64), m.thr))
    ex.check(st, nbool(z3.Implies(z3.And(A, z3.Not(g['pend'])), g['slept'] == must)), 'a starved call beyond the threshold, and nothing else, is followed by one sleep', 'post', tags=('sleep',))
    ex.check(st, nbool(z3.Implies(z3.And(A, z3.Not(g['pend'])), bv(cell(ex, st, m, i, 'cur'), 64) == bv(g['prev'], 64))), 'the back-off changes only by a sleep or by progress', 'post', tags=('sleep',))
    pend = z3.And(g['pend'], z3.Not(d['acked']))
    f = bv(cell(ex, st, m, i, 'fails'), 64)
    g['cons'] = norm(z3.If(z3.And(g['pend'], d['acked']), BV(0, 64), bv(g['cons'], 64)))
    c = bv(cell(ex, st, m, i, 'cur'), 64)
    st.assume(z3.Implies(FIN(c), FIN(bv(half(ex, st, c), 64))))      # the halving lemma
    g['prev'], g['F'], g['pend'], g['slept'] = bv(cell(ex, st, m, i, 'cur'), 64), f, nz(pend), b0(False)


def nz(x):
    x = nbool(x)
    return b0(x) if isinstance(x, bool) else x


def install(ex, m, mode, idx=None):
    """mode: exec (one tick of block idx) | tpb (the loop of block idx) | worker"""
    def onload(ex, st, obj, off, n, ordering):
        if obj is m.g and isinstance(off, int) and off == m.o['stop']:
            ex.check(st, ordering != 'na', 'the stop flag is read atomically', 'ordering', tags=('loop',))
            v = ex.fresh_bool(st, 'stop_seen')
            st.assume(z3.Implies(st.ghost['stop'], v))
            st.ghost['stop'] = v
            st.ghost['running'] = nz(z3.Not(v))
            ex.wr(st, m.g, m.o['stop'], 1, norm(z3.If(v, BV(1, 8), BV(0, 8))))

    def onstore(ex, st, obj, off, n, v, ordering):
        if obj is m.g and isinstance(off, int) and off <= m.o['stop'] < off + n:
            ex.check(st, ordering != 'na' and off == m.o['stop'] and n == 1, 'the stop flag is written atomically', 'ordering', tags=('loop',))
            ex.check(st, nbool(bv(v, 8) == 1) if not isinstance(v, int) else v == 1, 'a running loop never takes a stop request back', 'post', tags=('loop',))
            ex.check(st, st.ghost['fatal'], 'the loop stops the graph only for a fatal error', 'post', tags=('loop',))
            st.ghost['stop'] = b0(True)
            st.ghost['running'] = b0(False)
    ex.hooks_load.append(onload)
    ex.hooks_store.append(onstore)

    def which(ex, st, a):
        for k in range(m.nblk):
            if isinstance(a[0], Ptr) and a[0].obj is m.blk[k] and isinstance(a[0].off, int) and a[0].off == 0:
                return k
        return None

    def blk(ex, st, a, inst):
        g = st.ghost
        k = which(ex, st, a)
        if idx is not None:
            ex.check(st, k == idx, 'only the block it is responsible for is called', 'post', tags=('loop',))
            k = idx
        if k is None:
            ex.check(st, False, 'a block of the graph is called', 'post', tags=('loop',))
            st.status = 'dead'
            return 0
        ex.check(st, isinstance(a[1], Ptr) and a[1].obj is m.out[k], 'the block is called with its own outputs', 'post', tags=('loop',))
        ex.check(st, g['running'], 'the stop flag is polled, and found clear, before every call', 'post', tags=('loop',))
        ex.check(st, nbool(z3.Not(g['fatal'])), 'no call after a fatal error', 'post', tags=('loop',))
        if mode == 'exec':
            ex.check(st, nbool(z3.ULT(bv(g['ncall'], 64), m.calls)), 'at most the configured number of calls per tick', 'post', tags=('loop',))
            ex.check(st, nbool(z3.ULE(bv(g['last'], 64), BV(1, 64))), 'any outcome but success ends the burst', 'post', tags=('loop',))
        if mode == 'worker':
            m.on_call(ex, st, k)
        else:
            observe(ex, st, m, k, True)
        g['running'] = b0(False)
        g['ncall'] = add(g['ncall'], 1)
        if mode != 'worker' and m.sleep:
            g['burst'] = norm(z3.If(g['pend'], bv(g['burst'], 64), BV(0, 64)))
        g['burst'] = add(g['burst'], 1)
        out = []
        # success: any negative result of the stand-in procedure
        s1, s2, s3, s4 = st.fork(), st.fork(), st.fork(), st
        s1.ghost.update(last=BV(1, 64), pend=b0(True), cons=BV(0, 64))
        s1.ghost['ok%d' % k] = add(s1.ghost['ok%d' % k], 1)
        out.append((s1, mask(32)))
        for s, names, code in ((s2, STARVED, 2), (s3, SOFT, 3), (s4, FATALS, 4)):
            e = ex.fresh(s, 'outcome', 32)
            s.assume(z3.Or(*[e == BV(m.err[n], 32) for n in names]))
            s.ghost['last'] = BV(code, 64)
            s.ghost['bad%d' % k] = add(s.ghost['bad%d' % k], 1)
            if code == 4:
                s.ghost['fatal'] = b0(True)
            if code == 2:
                s.ghost['cons'] = add(s.ghost['cons'], 1)
                if m.sleep:
                    # progress not yet recorded: the back-off this starvation starts from is the halved one
                    p = s.ghost['pend']
                    s.ghost['pend'] = b0(False)
                    if ex.feasible(s, p):
                        t = s.fork()
                        t.assume(p)
                        t.ghost['prev'] = bv(half(ex, t, t.ghost['prev']), 64)
                        out.append((t, e))
                    if not ex.feasible(s, nbool(z3.Not(p))):
                        continue
                    s.assume(z3.Not(p))
                s.ghost['pend'] = b0(False)
            out.append((s, e))
        return Multi(out)

    def sleep(ex, st, a, inst):
        g = st.ghost
        ex.check(st, m.adaptive, 'no sleep with adaptive sleeping off', 'post', tags=('sleep',))
        ex.check(st, nbool(bv(g['last'], 64) == 2), 'only starvation leads to a sleep', 'post', tags=('sleep',))
        if mode == 'worker':
            return None
        if not m.sleep:
            return None
        ex.check(st, nbool(z3.UGT(bv(g['cons'], 64), m.thr)), 'a sleep needs more consecutive starved calls than the threshold', 'post', tags=('sleep',))
        ex.check(st, nbool(z3.Not(g['slept'])), 'one sleep per starved call', 'post', tags=('sleep',))
        cb = bv(cell(ex, st, m, idx, 'cur'), 64)
        c = fp(cb)
        base, mx, mu = fp(g['prev']), fp(m.max), fp(m.mult)
        us = z3.fpToFPUnsigned(z3.RNE(), bv(a[0], 64), F64)
        R = z3.RNE()
        ex.check(st, nbool(z3.fpLEQ(us, mx)), 'a sleep is never longer than the configured maximum', 'post', tags=('sleep', 'fp'))
        ex.check(st, nbool(z3.And(LE(cb, m.max), FIN(cb))), 'the back-off never exceeds the configured maximum', 'post', tags=('sleep', 'fp'))
        ex.check(st, nbool(z3.And(z3.fpLEQ(us, c), z3.fpLT(z3.fpSub(R, c, fpc(1.0)), us))) , 'the sleep is the recorded back-off in whole microseconds', 'post', tags=('sleep', 'fp'))
        ex.check(st, nbool(z3.Implies(z3.fpIsZero(base), z3.Or(c == mx, z3.fpEQ(c, fpc(1.0))))), 'the back-off starts at one microsecond', 'post', tags=('sleep', 'fp'))
        want = z3.fpMul(R, base, mu)
        ex.check(st, nbool(z3.Implies(z3.And(z3.fpLEQ(fpc(1e-300), base)), z3.Or(z3.fpEQ(c, mx), z3.And(z3.fpLT(base, c), z3.fpLEQ(z3.fpMul(R, want, fpc(0.9)), c), z3.fpLEQ(c, z3.fpMul(R, want, fpc(1.1))))))),
                 'the back-off grows by the configured factor (within 10 %) until the maximum', 'post', tags=('sleep', 'fp'))
        # from here on only what was just proved about the new back-off is used
        n = ex.fresh(st, 'backoff', 64)
        st.assume(FIN(n))
        st.assume(LE(n, m.max))
        ex.wr(st, m.g, stat(m, idx, 'cur'), 8, n)
        g['prev'] = n
        g['slept'] = b0(True)
        return None

    def callback(ex, st, a, inst):
        g = st.ghost
        ex.check(st, g['fatal'], 'the termination callback is called only for a fatal error', 'post', tags=('loop',))
        ex.check(st, nbool(bv(g['cbn'], 64) == 0), 'the termination callback is called once', 'post', tags=('loop',))
        ex.check(st, isinstance(a[0], Ptr) and a[0].obj is m.ctxobj, 'the termination callback gets its context', 'post', tags=('loop',))
        ex.check(st, g['stop'], 'the graph is already stopped when the callback runs', 'post', tags=('loop',))
        g['cbn'] = add(g['cbn'], 1)
        return None
    nop = lambda ex, st, a, i: None
    ex.contracts.update({'blk_proc': blk, 'tp_sleep': sleep, 'tp_relax': nop, 'user__callback': callback, 'tp_pin': nop})
    ex.contract_pred.append((lambda n: 'system_clock3now' in n or 'steady_clock3now' in n, lambda ex, st, a, i: ex.fresh(st, 'now', 64)))

    blks = [idx] if idx is not None else list(range(m.nblk))

    def props(s):
        """facts about the history a loop may rely on (proved inductive before use)"""
        g = s.ghost
        yield lambda: nz(z3.Not(g['fatal']))
        yield lambda: nz(z3.And(z3.Implies(g['fatal'], g['stop']), bv(g['cbn'], 64) == z3.If(g['fatal'], BV(1 if m.cbset else 0, 64), BV(0, 64))))
        yield lambda: nz(z3.Implies(g['fatal'], g['stop']))
        yield lambda: nz(z3.ULE(bv(g['last'], 64), BV(1, 64)))
        yield lambda: nz(bv(g['ncall'], 64) == bv(g['burst'], 64))
        for k in blks:
            yield lambda k=k: nz(z3.Implies(m.detailed, bv(cell(ex, s, m, k, 'ok'), 64) == m.ok0[k] + bv(g['ok%d' % k], 64)))
            yield lambda k=k: nz(z3.Implies(m.detailed, bv(cell(ex, s, m, k, 'bad'), 64) == m.bad0[k] + bv(g['bad%d' % k], 64)))
        if mode == 'worker' and m.cnt:
            cur = bv(ex.rd(s, s.mem[m.g.id], m.curoff, 4), 32)
            yield lambda: nz(z3.ULE(cur, BV(m.cnt, 32)))
            pos = z3.ZeroExt(32, z3.If(cur == m.cnt, BV(0, 32), cur))
            yield lambda: nz(z3.Or(g['stop'], pos == bv(g['pos'], 64)))
            yield lambda: nz(z3.ULT(bv(g['pos'], 64), BV(m.cnt, 64)))
        if m.sleep and mode != 'worker':
            A = m.adaptive

            def d_(k):
                return facts(ex, s, m, blks[0])[k]
            yield lambda: g['pend']
            yield lambda: nz(z3.Not(g['pend']))
            yield lambda: nz(z3.Implies(A, z3.Implies(z3.Not(g['pend']), d_('quiet'))))
            yield lambda: nz(z3.Implies(A, z3.Implies(g['pend'], d_('acked'))))
            yield lambda: nz(z3.Implies(A, z3.Implies(g['pend'], d_('unacked'))))
            yield lambda: nz(z3.Implies(g['pend'], bv(g['cons'], 64) == 0))
            yield lambda: nz(FIN(bv(cell(ex, s, m, blks[0], 'cur'), 64)))
    NP = None

    def cands(ex, st0, sp, loop):
        phis = [p for p in loop.header.insts if p.op == 'phi']
        n = len(list(props(sp)))
        out = []

        def prop(s, j):
            for t, p in enumerate(props(s)):
                if t == j:
                    return p()
        base = []
        for j in range(n):
            base.append(lambda s, j=j: prop(s, j))
        out += base

        def weaker(j, f):
            f.implied_by = base[j]
            out.append(f)
        for p in phis:
            if p.ty.k != 'int':
                continue
            if p.ty.n == 8:
                out.append(lambda s, p=p: nz(z3.ULE(bv(s.frames[-1].env[p.id], 8), BV(1, 8))))
            atom = (lambda s, p=p: zb(tobool(s.frames[-1].env[p.id]))) if p.ty.n == 1 else (lambda s, p=p: eqz(s.frames[-1].env[p.id], 0, p.ty.n))
            for j in range(n):
                weaker(j, lambda s, j=j, a=atom: nz(z3.Implies(a(s), prop(s, j))))
                weaker(j, lambda s, j=j, a=atom: nz(z3.Implies(z3.Not(a(s)), prop(s, j))))
            if p.ty.n == 64:
                for gname in ['burst', 'ncall'] + ['%s%d' % (x, k) for k in blks for x in ('ok', 'bad')]:
                    out.append(lambda s, p=p, gname=gname: nz(bv(s.frames[-1].env[p.id], 64) == bv(s.ghost[gname], 64)))
                out.append(lambda s, p=p: nz(z3.Or(bv(s.frames[-1].env[p.id], 64) == 0, bv(s.frames[-1].env[p.id], 64) == bv(s.ghost['burst'], 64))))
                out.append(lambda s, p=p: nz(z3.Or(z3.Not(m.adaptive) if m.sleep else b0(False), bv(s.frames[-1].env[p.id], 64) == 0, z3.ULE(bv(s.ghost['burst'], 64), bv(s.frames[-1].env[p.id], 64)))))
                out.append(lambda s, p=p: nz(z3.Or(z3.Not(m.detailed), bv(s.frames[-1].env[p.id], 64) == bv(s.ghost['ok%d' % blks[0]], 64))))
                out.append(lambda s, p=p: nz(z3.Or(z3.Not(m.detailed), bv(s.frames[-1].env[p.id], 64) == bv(s.ghost['bad%d' % blks[0]], 64))))
        return out
    ex.loop_cands = cands
    ex.max_cands = 400


def eqz(a, b, w):
    return bv(a, w) == bv(b, w)


def finish(ex, s, m, mode, idx, count_cells=True):
    g = s.ghost
    if s.status == 'throw':
        ex.check(s, False, 'the loop does not throw', 'post', tags=('loop',))
        return
    if mode != 'exec':
        ex.check(s, g['stop'], 'the loop ends only when the graph is stopped', 'post', tags=('loop',))
    ex.check(s, nbool(z3.Implies(g['fatal'], g['stop'])), 'a fatal error stops the graph', 'post', tags=('loop',))
    ex.check(s, nbool(bv(g['cbn'], 64) == z3.If(g['fatal'], BV(1 if m.cbset else 0, 64), BV(0, 64))), 'a fatal error, and only that, is reported once', 'post', tags=('loop',))
    for k in ([idx] if idx is not None else range(m.nblk)):
        for cname, base in (('ok', m.ok0[k]), ('bad', m.bad0[k])):
            want = bv(g['%s%d' % (cname, k)], 64)
            if mode != 'tpb':
                want = want + base
            ex.check(s, nbool(z3.Implies(m.detailed, bv(cell(ex, s, m, k, cname), 64) == want)), 'the %s counter is the number of such calls' % ('success' if cname == 'ok' else 'failure'), 'post', tags=('loop',))
    if mode != 'worker':
        observe(ex, s, m, idx, False)


def verify_exec(ex, tag, nblk, idx, sleep, cb):
    st, m = setup(ex, tag, nblk, sleep, cb, detailed=False if sleep else None)
    begin(ex, st, m, idx)
    install(ex, m, 'exec', idx)
    r = ex.new_obj(st, 'did_work', 1)
    x = z3.BitVec('elsewhere', 64)
    pre = st.fork()
    for s in ex.call_function(st, tag + '__exec', [Ptr(m.g, 0), idx, Ptr(m.cfg, 0), Ptr(r, 0)]):
        finish(ex, s, m, 'exec', idx)
        if s.status != 'throw':
            g = s.ghost
            w = ex.rd(s, s.mem[r.id], 0, 1)
            q = s.fork()
            a = m.o['stats'] + idx * m.ssz
            q.assume(z3.And(z3.ULT(x, BV(m.g.size, 64)), z3.Not(z3.And(z3.ULE(BV(a, 64), x), z3.ULT(x, BV(a + m.ssz, 64)))), x != BV(m.o['stop'], 64)))
            ex.check(q, eq(ex.rd(q, q.mem[m.g.id], x, 1), ex.rd(q, pre.mem[m.g.id], x, 1), 8), 'a tick changes nothing but the statistics of its block and the stop flag', 'frame', tags=('loop',))
            ex.check(s, nbool(zb(tobool(w)) == (bv(g['ok%d' % idx], 64) != 0)), 'the tick reports whether the block made progress', 'post', tags=('loop',))
            ex.check(s, nbool(z3.Or(bv(g['ncall'], 64) == m.calls, g['stop'], bv(g['last'], 64) != 1)), 'the burst ends early only for a stop or an outcome other than success', 'post', tags=('loop',))


def verify_tpb(ex, tag, nblk, idx, sleep, cb):
    st, m = setup(ex, tag, nblk, sleep, cb, detailed=False if sleep else None)
    begin(ex, st, m, idx)
    install(ex, m, 'tpb', idx)
    for s in ex.call_function(st, '%s__tpb%d' % (tag, idx), [Ptr(m.g, 0), Ptr(m.cfg, 0)]):
        finish(ex, s, m, 'tpb', idx)


def helper_contract(ex, m, idx_of):
    """the contract of one tick (verify_exec), for the loop that calls it"""
    def h(ex, st, a, inst):
        g = st.ghost
        k = idx_of(inst)
        if k is None or k >= m.nblk:
            ex.check(st, False, 'a block of the graph is called', 'post', tags=('loop', 'pool'))
            st.status = 'dead'
            return 0
        ex.check(st, isinstance(a[0], Ptr) and a[0].obj is m.g and a[0].off == 0 and isinstance(a[1], Ptr) and a[1].obj is m.cfg and a[1].off == 0, 'a tick gets the graph and its configuration', 'post', tags=('loop',))
        m.on_call(ex, st, k)
        seen = ex.fresh_bool(st, 'stop_seen')
        st.assume(z3.Implies(g['stop'], seen))
        n = ex.fresh(st, 'successes', 64)
        fatal, bad, stop = ex.fresh_bool(st, 'fatal'), ex.fresh_bool(st, 'bad'), ex.fresh_bool(st, 'stop_seen')
        st.assume(z3.ULE(n, m.calls))
        st.assume(z3.Implies(seen, z3.And(n == 0, z3.Not(bad), stop)))        # no call once the stop is seen
        st.assume(z3.Implies(bad, z3.ULT(n, m.calls)))                        # an outcome other than success ends the burst
        st.assume(z3.Implies(z3.And(z3.Not(seen), z3.Not(bad)), z3.And(n != 0, z3.Or(n == m.calls, stop))))
        st.assume(z3.Implies(fatal, z3.And(bad, stop)))
        for c, v in (('ok', n), ('bad', z3.If(bad, BV(1, 64), BV(0, 64)))):
            old = bv(cell(ex, st, m, k, c), 64)
            ex.wr(st, m.g, stat(m, k, c), 8, norm(z3.If(m.detailed, old + v, old)))
            g['%s%d' % (c, k)] = norm(bv(g['%s%d' % (c, k)], 64) + v)
        for c in ('cur', 'fails'):
            ex.wr(st, m.g, stat(m, k, c), 8, ex.fresh(st, c, 64))
        g['fatal'] = nz(z3.Or(g['fatal'], fatal))
        g['cbn'] = norm(z3.If(fatal, bv(g['cbn'], 64) + (1 if m.cbset else 0), bv(g['cbn'], 64)))
        g['stop'] = stop
        g['running'] = b0(False)
        ex.wr(st, m.g, m.o['stop'], 1, norm(z3.If(stop, BV(1, 8), BV(0, 8))))
        return norm(z3.If(n != 0, BV(1, 1), BV(0, 1)))
    return h


def verify_worker(ex, tag, nblk, w, lo, hi, start, pin, cb=True):
    """the loop of pool worker w whose queue holds blocks lo..hi-1 and stands at any position; one tick is a contract"""
    import re
    st, m = setup(ex, tag, nblk, False, cb)
    m.cnt, m.lo = hi - lo, lo
    for o, base in ((m.cfg, 0), (m.g, m.o['config'])):
        ex.wr(st, o, base + m.c['pin'], 1, pin)
    qs = m.o['q1'] - m.o['queues']
    m.curoff = m.o['q_current'] + w * qs
    for k in range(lo, hi):
        ex.wr(st, m.g, m.o['q_blocks'] + w * qs + k - lo, 1, k)
    ex.wr(st, m.g, m.o['q_count'] + w * qs, 4, hi - lo)
    ex.wr(st, m.g, m.curoff, 4, start)
    ex.wr(st, m.g, m.o['s_blocks'], 8, nblk)
    for k in range(nblk):
        ex.wr(st, m.g, m.o['owner'] + 8 * k, 8, w if lo <= k < hi else w + 1)
    st.ghost['pos'] = BV(start % max(1, m.cnt), 64)
    st.ghost['last'] = BV(0, 64)

    def on_call(ex, st, k):
        g = st.ghost
        ex.check(st, lo <= k < hi, 'a worker runs only its own blocks', 'post', tags=('pool', 'loop'))
        ex.check(st, nbool(bv(g['pos'], 64) == k - lo), 'a worker cycles through its blocks in turn', 'post', tags=('pool', 'loop'))
        g['pos'] = BV((k - lo + 1) % m.cnt, 64)
    m.on_call = on_call
    install(ex, m, 'worker')

    def idx_of(inst):
        r = re.search(r'execute_block_at_index_helperILm(\d+)E', inst.val.val.name)
        return int(r.group(1)) if r else None
    ex.contract_pred.append((lambda n: 'execute_block_at_index_helperILm' in n, helper_contract(ex, m, idx_of)))

    def guard(ex, st, obj, off, n, v, ordering):
        if obj is m.g and isinstance(off, int):
            for k in range(nblk):
                for c in ('cur', 'fails', 'ok', 'bad'):
                    p = stat(m, k, c)
                    ex.check(st, not (off < p + 8 and p < off + n), 'the pool leaves the counters and the back-off to the tick', 'post', tags=('loop', 'pool'))
    ex.hooks_store.append(guard)

    def cases(ex, st, loop):
        cur = ex.rd(st, st.mem[m.g.id], m.curoff, 4)
        if isinstance(cur, int):
            return None

        def fix(v):
            return lambda s: ex.wr(s, m.g, m.curoff, 4, v)
        return [(bv(cur, 32) == v, fix(v)) for v in range(m.cnt + 1)]
    ex.loop_cases = cases
    for s in ex.call_function(st, tag + '__worker', [Ptr(m.g, 0), w, Ptr(m.cfg, 0)]):
        finish(ex, s, m, 'worker', None)


# ---------------------------------------------------------------- scheduler tables (C11)
def sched_offsets(ex, tag):
    off = lambda n: Q.offset(ex, n, None)
    o = {k: off('%s__at_%s' % (tag, k)) for k in ('q_blocks', 'q_count', 'q_current', 'q1', 'owner', 's_blocks')}
    o['stride'] = o['q1'] - o['q_blocks']
    return o


def verify_init(ex, workers, lo_b=1, hi_b=None):
    """initialize(blocks, workers): an even contiguous partition, for every supported number of blocks (a complete enumeration)"""
    o = sched_offsets(ex, 'sg')
    nq = Q.constant(ex, 'sg__nq')
    maxb = Q.constant(ex, 'sg__maxb')
    stride = Q.offset(ex, 'sg__at_q1', None)
    for B in range(lo_b, min(maxb, hi_b or maxb) + 1):
        st = State()
        g = ex.new_obj(st, 'scheduler', Q.constant(ex, 'sg__sizeof'))
        cap = -(-B // workers)
        for s in ex.call_function(st, 'sg__init', [Ptr(g, 0), B, workers]):
            if s.status == 'throw':
                ex.check(s, False, 'initialisation does not throw', 'post', tags=('pool',))
                continue
            rd = lambda off, n: ex.rd(s, s.mem[g.id], off, n)
            lo = 0
            full = True
            for w in range(nq):
                cnt = rd(o['q_count'] + w * stride, 4)
                ex.check(s, eq(rd(o['q_current'] + w * stride, 4), 0, 32), 'every worker starts at its first block', 'post', tags=('pool',))
                if w >= workers:
                    ex.check(s, eq(cnt, 0, 32), 'workers that do not exist get no blocks', 'post', tags=('pool',))
                    continue
                if not isinstance(cnt, int):
                    ex.check(s, False, 'the assignment depends only on the counts', 'post', tags=('pool',))
                    full = False
                    break
                ex.check(s, cnt <= cap, 'no worker gets more than the even split rounded up', 'post', tags=('pool',))
                ok = ow = True
                for i in range(min(cnt, maxb)):
                    ok = band(ok, eq(rd(o['q_blocks'] + w * stride + i, 1), lo + i, 8))
                    if lo + i < maxb:
                        ow = band(ow, eq(rd(o['owner'] + 8 * (lo + i), 8), w, 64))
                ex.check(s, ok, 'a worker gets consecutive blocks, starting where the previous worker ends', 'post', tags=('pool',))
                ex.check(s, ow, 'the recorded owner is the worker that has the block', 'post', tags=('pool',))
                lo += cnt
            if full:
                ex.check(s, lo == B, 'every block is assigned', 'post', tags=('pool',))
            ex.check(s, eq(rd(o['s_blocks'], 8), B, 64), 'the number of blocks is recorded', 'post', tags=('pool',))


def verify_owner(ex, tag):
    """is_block_owner from any table: true for exactly the recorded owner"""
    st = State()
    g = ex.new_obj(st, 'scheduler', Q.constant(ex, tag + '__sizeof'))
    o = sched_offsets(ex, tag)
    maxb = Q.constant(ex, 'sg__maxb' if tag == 'sg' else tag + '__n')
    B, b, w, own = (z3.BitVec(n, 64) for n in ('blocks', 'b', 'w', 'own'))
    st.assume(z3.ULE(B, BV(maxb, 64)))
    ex.wr(st, g, o['s_blocks'], 8, B)
    inb = st.fork()
    inb.assume(z3.ULT(b, B))
    ex.wr(inb, g, add(o['owner'], mul(b, 8)), 8, own)
    for s in ex.call_function(inb, tag + '__owns', [Ptr(g, 0), w, b]):
        ex.check(s, nbool(zb(tobool(s.ret)) == (own == w)) if s.status != 'throw' else False, 'exactly the owner reports the block as its own', 'post', tags=('pool',))
    st.assume(z3.UGE(b, B))
    for s in ex.call_function(st, tag + '__owns', [Ptr(g, 0), w, b]):
        ex.check(s, nbool(z3.Not(zb(tobool(s.ret)))) if s.status != 'throw' else False, 'nobody owns a block that does not exist', 'post', tags=('pool',))


def verify_next(ex, tag, worker):
    """get_next_block from any queue state: the next block of the worker in cyclic order"""
    st = State()
    g = ex.new_obj(st, 'scheduler', Q.constant(ex, tag + '__sizeof'))
    o = sched_offsets(ex, tag)
    stride = Q.offset(ex, tag + '__at_q1', None) - (Q.offset(ex, tag + '__at_queues', None) if tag != 'sg' else 0)
    maxb = Q.constant(ex, 'sg__maxb' if tag == 'sg' else tag + '__n')
    cnt, cur = z3.BitVec('count', 32), z3.BitVec('current', 32)
    st.assume(z3.ULE(cnt, BV(maxb, 32)))
    st.assume(z3.ULE(cur, cnt))
    co, uo = o['q_count'] + worker * stride, o['q_current'] + worker * stride
    ex.wr(st, g, co, 4, cnt)
    ex.wr(st, g, uo, 4, cur)
    out = ex.new_obj(st, 'out', 8)
    at = z3.If(cur == cnt, BV(0, 32), cur)
    want = bv(ex.rd(st, st.mem[g.id], add(o['q_blocks'] + worker * stride, norm(z3.ZeroExt(32, at))), 1), 8)
    pre = st.fork()
    x = z3.BitVec('other', 64)
    for s in ex.call_function(st, tag + '__next', [Ptr(g, 0), worker, Ptr(out, 0)]):
        if s.status == 'throw':
            ex.check(s, False, 'scheduling does not throw', 'post')
            continue
        got = zb(tobool(s.ret))
        ex.check(s, nbool(got == (cnt != 0)), 'a block is found exactly when the worker has one', 'post', tags=('pool',))
        v = bv(ex.rd(s, s.mem[out.id], 0, 8), 64)
        ex.check(s, nbool(z3.Implies(got, v == z3.ZeroExt(56, want))), 'blocks are handed out in cyclic order', 'post', tags=('pool',))
        c2 = bv(ex.rd(s, s.mem[g.id], uo, 4), 32)
        ex.check(s, nbool(z3.Implies(got, c2 == at + 1)), 'the position advances by one, cyclically', 'post', tags=('pool',))
        ex.check(s, eq(ex.rd(s, s.mem[g.id], co, 4), cnt, 32), 'the assignment is not changed', 'post', tags=('pool',))
        s2 = s.fork()
        s2.assume(z3.ULT(x, BV(g.size, 64)))
        s2.assume(z3.Or(z3.ULT(x, BV(uo, 64)), z3.UGE(x, BV(uo + 4, 64))))
        a = ex.rd(s2, s2.mem[g.id], x, 1)
        b = ex.rd(s2, pre.mem[g.id], x, 1)
        ex.check(s2, eq(a, b, 8), 'nothing else in the scheduler changes', 'post', tags=('pool',))


# ---------------------------------------------------------------- run and stop
def task_contracts(ex, m, workers):
    def begin_(ex, st, a, inst):
        st.ghost['intask'] = True
        ex.check(st, eq(ex.rd(st, st.mem[m.g.id], m.o['stop'], 1), 0, 8) if not st.ghost['started'] else True, 'the stop request of an earlier run is cleared before the first task starts', 'post', tags=('pool', 'run'))
        st.ghost['cur'] = ()
        # from now on a task may stop the graph at any time
        st.ghost['started'] = True
        v = ex.fresh_bool(st, 'stopped_by_task')
        ex.wr(st, m.g, m.o['stop'], 1, norm(z3.If(v, BV(1, 8), BV(0, 8))))
        return None

    def end_(ex, st, a, inst):
        ran = st.ghost.get('cur', ())
        ex.check(st, len(ran) == 1, 'a task runs one loop', 'post', tags=('pool', 'run'))
        st.ghost['intask'] = False
        st.ghost['tasks'] = st.ghost['tasks'] + ran
        return 1000 + len(st.ghost['tasks']) - 1

    def cfg_ok(ex, st, p, what):
        if not isinstance(p, Ptr) or p.obj is None:
            ex.check(st, False, what, 'post', tags=('pool', 'run'))
            return
        for k, n in (('adaptive', 1), ('mult', 8), ('max', 8), ('threshold', 8), ('detailed', 1), ('calls', 8), ('pin', 1)):
            a = ex.rd(st, st.mem[p.obj.id], add(p.off, m.c[k]), n)
            b = ex.rd(m.st0, m.st0.mem[m.cfg.id], m.c[k], n)
            ex.check(st, eq(a, b, 8 * n), what, 'post', tags=('pool', 'run'))
        for k, n in (('adaptive', 1), ('mult', 8), ('max', 8), ('threshold', 8)):
            a = ex.rd(st, st.mem[m.g.id], m.o['config'] + m.c[k], n)
            b = ex.rd(m.st0, m.st0.mem[m.cfg.id], m.c[k], n)
            ex.check(st, eq(a, b, 8 * n), 'the graph holds the configuration of this run before its tasks start', 'post', tags=('pool', 'run'))

    def loop(kind, val):
        def h(ex, st, a, inst):
            v = val(a, inst)
            ex.check(st, isinstance(a[0], Ptr) and a[0].obj is m.g and a[0].off == 0 and st.ghost['intask'], 'loops run on tasks of the graph', 'post', tags=('pool', 'run'))
            if kind == 'worker':
                m.at_worker(ex, st, v)
            cfg_ok(ex, st, a[-1], 'a task gets the configuration of this run')
            st.ghost['cur'] = st.ghost['cur'] + ((kind, v),)
            return None
        return h
    import re

    def block_loop(ex, st, a, inst):
        mm = re.search(r'run_block_at_index_thread_per_blockILm(\d+)E', inst.val.val.name)
        return loop('block', lambda a, i: int(mm.group(1)))(ex, st, a, inst)
    ex.contract_pred += [(lambda n: 'run_block_at_index_thread_per_block' in n, block_loop),
                         (lambda n: 'run_fixed_thread_pool_worker' in n, loop('worker', lambda a, i: a[1])),
                         (lambda n: 'system_clock3now' in n or 'steady_clock3now' in n, lambda ex, st, a, i: ex.fresh(st, 'now', 64))]
    ex.contracts.update({'tp_begin': begin_, 'tp_end': end_})

    def onstore(ex, st, obj, off, n, v, ordering):
        if obj is m.g and isinstance(off, int) and off <= m.o['stop'] < off + n:
            ex.check(st, ordering != 'na', 'the stop flag is written atomically', 'ordering', tags=('run',))
            ex.check(st, not st.ghost['started'], 'a stop request made after the first task started is not lost', 'post', tags=('run', 'pool'))
    ex.hooks_store.append(onstore)


def verify_run(ex, tag, sched, workers):
    n = Q.constant(ex, tag + '__n')
    st, m = setup(ex, tag, n, False, True)
    ex.wr(st, m.cfg, m.c['scheduler'], 4, sched)
    ex.wr(st, m.cfg, m.c['num_workers'], 8, workers)
    st.ghost.clear()
    st.ghost.update({'started': False, 'intask': False, 'tasks': (), 'cur': ()})
    ex.ghost_drop = ('started', 'intask', 'tasks', 'cur')
    # statistics, configuration of the graph and stop flag are whatever an earlier run left
    ex.wr(st, m.g, m.o['stop'], 1, z3.BitVec('stop_left', 8))
    for k, w in (('adaptive', 1), ('mult', 8), ('max', 8), ('threshold', 8), ('detailed', 1), ('calls', 8), ('pin', 1), ('num_workers', 8)):
        ex.wr(st, m.g, m.o['config'] + m.c[k], w, z3.BitVec('old_' + k, 8 * w))
    m.st0 = st.fork()
    pool = sched == 1 and workers < n
    nq = Q.constant(ex, tag + '__nq')
    nw = min(workers, nq)
    per = -(-n // nw)
    qs = m.o['q1'] - m.o['queues']
    rng = [(min(w * per, n), min((w + 1) * per, n)) for w in range(nw)]

    def at_worker(ex, st, w):
        ok = isinstance(w, int) and 0 <= w < nw
        ex.check(st, ok, 'the worker exists in the scheduler', 'post', tags=('pool',))
        if not ok:
            return
        lo, hi = rng[w]
        rd = lambda o, k: ex.rd(st, st.mem[m.g.id], o, k)
        ex.check(st, eq(rd(m.o['q_count'] + w * qs, 4), hi - lo, 32), 'the scheduler is ready before its workers start', 'post', tags=('pool',))
        ex.check(st, eq(rd(m.o['q_current'] + w * qs, 4), 0, 32), 'the scheduler is ready before its workers start', 'post', tags=('pool',))
        for k in range(lo, hi):
            ex.check(st, eq(rd(m.o['q_blocks'] + w * qs + k - lo, 1), k, 8), 'the scheduler is ready before its workers start', 'post', tags=('pool',))
        if pool:
            for k in range(n):
                for c in ('ok', 'bad'):
                    d = bv(ex.rd(m.st0, m.st0.mem[m.cfg.id], m.c['detailed'], 1), 8) != 0
                    ex.check(st, nbool(z3.Implies(d, bv(cell(ex, st, m, k, c), 64) == 0)), 'the counters of a run start at zero', 'post', tags=('pool', 'run'))
    m.at_worker = at_worker
    task_contracts(ex, m, workers)
    for s in ex.call_function(st, tag + '__run', [Ptr(m.g, 0), Ptr(m.cfg, 0)]):
        if s.status == 'throw':
            ex.check(s, False, 'starting the graph does not throw', 'post', tags=('run',))
            continue
        want = tuple(('worker', w) for w in range(nw)) if pool else tuple(('block', i) for i in range(n))
        ex.check(s, s.ghost['tasks'] == want, 'one task per worker' if pool else 'one task per block', 'post', tags=('pool', 'run'))
        ex.check(s, eq(ex.rd(s, s.mem[m.g.id], m.o['active'], 8), len(want), 64), 'every started task is joined later', 'post', tags=('pool', 'run'))
        for i in range(len(want)):
            ex.check(s, eq(ex.rd(s, s.mem[m.g.id], m.o['tasks'] + 8 * i, 8), 1000 + i, 64), 'every started task is joined later', 'post', tags=('pool', 'run'))


def verify_stop(ex, tag, which):
    n = Q.constant(ex, tag + '__n')
    st, m = setup(ex, tag, n, False, True)
    st.ghost.clear()
    st.ghost.update({'joined': BV(0, 64), 'set': b0(False)})
    A = z3.BitVec('active', 64)
    st.assume(z3.ULE(A, BV(n, 64)))
    ex.wr(st, m.g, m.o['active'], 8, A)

    def join(ex, st, a, inst):
        g = st.ghost
        ex.check(st, g['set'], 'the stop is requested before any task is joined', 'post', tags=('run',))
        p = a[0]
        ok = isinstance(p, Ptr) and p.obj is m.g
        ex.check(st, ok, 'only tasks of the graph are joined', 'post', tags=('run',))
        if ok:
            ex.check(st, eq(p.off, add(m.o['tasks'], mul(g['joined'], 8)), 64), 'every started task is joined once', 'post', tags=('run',))
        g['joined'] = add(g['joined'], 1)
        return None
    ex.contracts['tp_join'] = join

    def onstore(ex, st, obj, off, n, v, ordering):
        if obj is m.g and isinstance(off, int) and off <= m.o['stop'] < off + n:
            ex.check(st, ordering in ('release', 'seq_cst') and v == 1 if isinstance(v, int) else False, 'stopping publishes the stop request', 'ordering', tags=('run',))
            st.ghost['set'] = b0(True)
    ex.hooks_store.append(onstore)
    for s in ex.call_function(st, '%s__%s' % (tag, which), [Ptr(m.g, 0)]):
        if s.status == 'throw':
            ex.check(s, False, 'stopping does not throw', 'post', tags=('run',))
            continue
        ex.check(s, nbool(bv(s.ghost['joined'], 64) == A), 'every started task is joined', 'post', tags=('run',))
        ex.check(s, s.ghost['set'], 'the stop is requested', 'post', tags=('run',))
        for s2 in ex.call_function(s.fork(), tag + '__is_stopped', [Ptr(m.g, 0)]):
            ex.check(s2, nbool(zb(tobool(s2.ret))), 'a stopped graph says so', 'post', tags=('run',))
