"""Contracts of the channel queue (dro::SPSCQueue / cler::Channel), checked against the real methods' IR.

Abstract state: a bounded FIFO sequence.  With writer index w, reader index r and ring size C the sequence has
occ(w,r) elements, element d lives in slot (r+d) mod C.  Class invariant J:
  2<=C, w,r,rc,wc < C, occ(w,rc) >= occ(w,r)   (rc: a past reader position, never ahead of the reader)
  occ(wc,r) <= occ(w,r)                         (wc: a past writer position, never ahead of the writer)
Every method is verified from an arbitrary state satisfying J while the peer is interleaved arbitrarily
(rely: the peer only advances its own index within the bounds its own contract allows).
"""
import z3
from terms import *
from symex import *

ESZ = {'qf': 4, 'qc': 8, 'qb': 1, 'qp': 12, 'sf': 4, 'sp': 12, 'cf': 4}
CELL = {'qf': 4, 'qc': 4, 'qb': 1, 'qp': 4, 'sf': 4, 'sp': 4, 'cf': 4}
STACKN = {'sf': 7, 'sp': 1}
RELEASE = ('release', 'acq_rel', 'seq_cst')
ACQUIRE = ('acquire', 'acq_rel', 'seq_cst')

PRODUCER = ['push', 'push_rv', 'try_push', 'try_push_rv', 'writeN', 'peek_write', 'commit_write', 'write_dbf']
CONSUMER = ['pop', 'try_pop', 'readN', 'peek_read', 'commit_read', 'read_dbf']
OBSERVE = ['size', 'space', 'empty', 'capacity', 'is_doubly_mapped']
CH_METHODS = ['push', 'try_push', 'pop', 'try_pop', 'size', 'space', 'writeN', 'readN', 'peek_write', 'peek_read',
              'commit_read', 'commit_write', 'read_dbf', 'write_dbf']


def occ(w, r, C):
    w, r, C = bv(w, 64), bv(r, 64), bv(C, 64)
    return z3.If(z3.UGE(w, r), w - r, w + C - r)


def ringadd(i, d, C):
    i, d, C = bv(i, 64), bv(d, 64), bv(C, 64)
    return z3.If(z3.UGE(i + d, C), i + d - C, i + d)


class Model:
    pass


def offset(ex, name, obj_ptr):
    s = State()
    q = ex.new_obj(s, 'probe', 1 << 20)
    ex.frames = []
    r = ex.call_function(s, name, [Ptr(q, 0)])
    assert len(r) == 1 and isinstance(r[0].ret, Ptr) and r[0].ret.obj is q
    return r[0].ret.off


def constant(ex, name, args=()):
    s = State()
    a = []
    for x in args:
        a.append(Ptr(ex.new_obj(s, 'probe', 1 << 20), 0))
    r = ex.call_function(s, name, a)
    return r[0].ret


def setup(ex, tag, mode, chan=None):
    """mode: heap | dbf | stack.  Returns (state, model) in an arbitrary state satisfying J"""
    st = State()
    M = Model()
    M.tag, M.mode, M.esz = tag, mode, ESZ[tag]
    e = M.esz
    base = 0
    size = constant(ex, tag + '__sizeof')
    if chan:
        base = offset(ex, chan + '__queue', None)
        q = ex.new_obj(st, 'channel', constant(ex, chan + '__csizeof'), esz=1)
    else:
        q = ex.new_obj(st, 'queue', size, esz=1)
    M.q, M.base = q, base
    M.o = {}
    for f in ('w', 'rc', 'r', 'wc', 'cc'):
        M.o[f] = offset(ex, '%s__at_%s' % (tag, f), None) + base
    C = z3.BitVec('C', 64)
    if mode == 'stack':
        C = STACKN[tag] + 1
        M.bufobj = q
        M.bufoff = None
        s2 = State()
        M.sb = offset(ex, tag + '__stackbuf', None) + base
        cells = constant(ex, tag + '__stackcells', (1,))
        M.sbsize = cells * e
        pad = (cells - C) // 2
        M.bufoff = M.sb + pad * e
    else:
        st.assume(z3.UGE(C, BV(2, 64)))
        st.assume(z3.ULE(C, BV(1 << 40, 64)))
        S = mul(C, e)
        if mode == 'dbf':
            M.buf = ex.new_obj(st, 'buf', S, esz=CELL[tag], mirror=S)
        else:
            M.buf = ex.new_obj(st, 'buf', S, esz=CELL[tag])
        M.bufobj, M.bufoff = M.buf, 0
        ex.wr(st, q, offset(ex, tag + '__at_cap', None) + base, 8, C)
        ex.wr(st, q, offset(ex, tag + '__at_buf', None) + base, 8, Ptr(M.buf, 0))
        ex.wr(st, q, offset(ex, tag + '__at_dm', None) + base, 1, 1 if mode == 'dbf' else 0)
    M.C = C
    M.w, M.r, M.rc, M.wc = (z3.BitVec(n, 64) for n in ('w', 'r', 'rc', 'wc'))
    for n in ('w', 'r', 'rc', 'wc'):
        v = getattr(M, n)
        st.assume(z3.ULT(v, bv(C, 64)))
        ex.wr(st, q, M.o[n], 8, v)
    ex.wr(st, q, M.o['cc'], 8, C)
    st.assume(z3.UGE(occ(M.w, M.rc, C), occ(M.w, M.r, C)))
    st.assume(z3.ULE(occ(M.wc, M.r, C), occ(M.w, M.r, C)))
    st.ghost['w'], st.ghost['r'] = M.w, M.r
    st.ghost['A'], st.ghost['B'] = M.rc, M.wc     # positions known through acquire loads
    st.ghost['pub'] = 0                            # index advances in this call
    st.ghost['loads'] = 0
    M.st0 = st.fork()
    return st, M


def slot_of(ex, st, M, off, n):
    """(first slot, count) of a byte range of the buffer, or None"""
    rel = sub(off, M.bufoff)
    s = exact_div(rel, M.esz)
    c = exact_div(n, M.esz)
    if c is None:
        c = norm(z3.UDiv(bv(n, 64) + BV(M.esz - 1, 64), BV(M.esz, 64)))
    return s, c


def install(ex, M, role, spins=False):
    q, o, C, e = M.q, M.o, M.C, M.esz
    names = {v: k for k, v in o.items()}
    own, peer = ('w', 'r') if role == 'producer' else ('r', 'w')
    know = 'A' if role == 'producer' else 'B'
    forbid = ('r', 'wc', 'cc') if role == 'producer' else ('w', 'rc', 'cc')
    noread = ('wc',) if role == 'producer' else ('rc',)

    def full_empty(st, role):
        g = st.ghost
        if role == 'consumer':
            return bv(g['w'], 64) == bv(g['r'], 64)
        return occ(g['w'], g['r'], C) == bv(C, 64) - 1

    def field(off, n):
        for f, a in o.items():
            if isinstance(off, int) and isinstance(n, int) and not (a + 8 <= off or off + n <= a):
                return f
        return None

    def inbuf(obj, off):
        if M.mode == 'stack':
            if obj is not q:
                return False
            if isinstance(off, int):
                return M.sb <= off < M.sb + M.sbsize
            return True
        return obj is M.bufobj

    def allowed_range(st, s, c, write):
        """every slot in [s, s+c) belongs to this side"""
        t = ex.fresh(st, 'slot', 64)
        pos = add(s, t)
        g = st.ghost
        if M.mode == 'dbf':
            pos = z3.If(z3.UGE(bv(pos, 64), bv(C, 64)), bv(pos, 64) - bv(C, 64), bv(pos, 64))
        if write:
            mine = z3.ULT(occ(pos, g['w'], C), bv(C, 64) - 1 - occ(g['w'], g['A'], C))
        else:
            # the slot just behind the reader (r-1) is the ring's spare slot: the producer may only write
            # [w, r-2], so the consumer may still finish with it after publishing r
            mine = z3.Or(z3.ULT(occ(pos, g['r'], C), occ(g['B'], g['r'], C)), occ(pos, g['r'], C) == bv(C, 64) - 1)
        return z3.Implies(z3.ULT(t, bv(c, 64)), z3.And(z3.ULT(bv(pos, 64), bv(C, 64)), mine))

    def onload(ex, st, obj, off, n, ordering):
        if inbuf(obj, off):
            if getattr(M, 'raw_slots', False):
                return
            s, c = slot_of(ex, st, M, off, n)
            if s is None:
                # part of an element (member-wise copy): use the containing element
                s, c = part_slot(ex, st, M, off)
            if role == 'consumer':
                ex.check(st, allowed_range(st, s, c, False), 'reads only slots published and acquired', 'ownership', tags=('own',))
            elif role == 'producer':
                ex.check(st, False, 'producer never reads slot contents', 'ownership', tags=('own',))
            return
        if obj is not q:
            return
        f = field(off, n)
        if f is None:
            return
        if f in ('w', 'r'):
            ex.check(st, ordering != 'na' and off == o[f] and n == 8, 'shared index %s is read atomically' % f, 'ordering', tags=('order',))
        if f in noread and role != 'observer':
            ex.check(st, False, 'peer-private field is not read', 'ownership', tags=('own',))
        if f == peer:
            old = st.ghost[peer]
            new = ex.fresh(st, peer + '_env', 64)
            st.assume(z3.ULT(new, bv(C, 64)))
            if role == 'producer':
                st.assume(z3.ULE(occ(st.ghost['w'], new, C), occ(st.ghost['w'], old, C)))
            else:
                st.assume(z3.UGE(occ(new, st.ghost['r'], C), occ(old, st.ghost['r'], C)))
            if spins and not (isinstance(st.ghost['loads'], int) and st.ghost['loads'] == 0):
                wait = 'empty' if role == 'consumer' else 'full'
                ex.check(st, z3.Or(bv(st.ghost['loads'], 64) == 0, full_empty(st, role)),
                         'the wait goes on only while the queue was last observed %s' % wait, 'post', tags=('cap', 'live'))
            st.ghost[peer] = new
            st.ghost['loads'] = add(st.ghost['loads'], 1)
            if ordering in ACQUIRE:
                st.ghost[know] = new
            ex.wr(st, q, o[peer], 8, new)
            # the peer's private snapshot moves with it, under its own half of J
            pc = 'wc' if role == 'producer' else 'rc'
            snap = ex.fresh(st, pc + '_env', 64)
            st.assume(z3.ULT(snap, bv(C, 64)))
            if role == 'producer':
                st.assume(z3.ULE(occ(snap, new, C), occ(st.ghost['w'], new, C)))
            else:
                st.assume(z3.UGE(occ(new, snap, C), occ(new, st.ghost['r'], C)))
            ex.wr(st, q, o[pc], 8, snap)

    def onstore(ex, st, obj, off, n, v, ordering):
        if inbuf(obj, off):
            s, c = slot_of(ex, st, M, off, n)
            if s is None:
                s, c = part_slot(ex, st, M, off)
            if role == 'producer':
                ex.check(st, allowed_range(st, s, c, True), 'writes only free slots', 'ownership', tags=('own',))
            else:
                # moving out of / destroying a slot being consumed is allowed, anything else is not
                ex.check(st, allowed_range(st, s, c, False), 'consumer touches only its own slots', 'ownership', tags=('own',))
            return
        if obj is not q:
            return
        f = field(off, n)
        if f in forbid:
            ex.check(st, False, 'field %s is never written by the %s' % (f, role), 'ownership', tags=('own',))
            return
        if f is None and M.mode == 'stack' and not isinstance(off, int):
            return
        if f is None and isinstance(off, int) and off < min(o.values()) and M.mode != 'stack':
            ex.check(st, False, 'immutable queue fields are never written', 'ownership', tags=('own',))
        if f == own:
            ex.check(st, ordering != 'na' and off == o[f] and n == 8, 'own index is written atomically', 'ordering', tags=('order',))
            old = st.ghost[own]
            if isinstance(v, (Ptr, FnPtr)):
                v = 0
            if role == 'producer':
                adv = occ(v, old, C)
                lim = bv(C, 64) - 1 - occ(old, st.ghost['A'], C)
            else:
                adv = occ(v, old, C)
                lim = occ(st.ghost['B'], old, C)
            ex.check(st, z3.Or(z3.BoolVal(ordering in RELEASE), bv(v, 64) == bv(old, 64)),
                     'index is published with release ordering', 'ordering', tags=('order',))
            ex.check(st, z3.And(z3.ULT(bv(v, 64), bv(C, 64)), z3.ULE(adv, lim)),
                     'index advances only over owned slots', 'ownership', tags=('own', 'cap'))
            st.ghost['pub'] = norm(bv(st.ghost['pub'], 64) + adv)
            st.ghost[own] = v
    ex.hooks_load.append(onload)
    ex.hooks_store.append(onstore)


def part_slot(ex, st, M, off):
    rel = sub(off, M.bufoff)
    if isinstance(rel, int):
        return rel // M.esz, 1
    c, d = linear(rel)
    rr = c % M.esz
    s = exact_div(sub(rel, rr), M.esz)
    if s is None:
        s = norm(z3.UDiv(bv(rel, 64), BV(M.esz, 64)))
    return s, 1


def slot_val(ex, st, M, s, node=None):
    """contents of slot s as a list of cells"""
    out = []
    k = CELL[M.tag]
    for i in range(0, M.esz, k):
        out.append(ex.rd(st, st.mem[M.bufobj.id] if node is None else node, add(M.bufoff, add(mul(norm(bv(s, 64)), M.esz), i)), k))
    return out


def obj_val(ex, st, M, obj, idx, node=None):
    out = []
    k = CELL[M.tag]
    for i in range(0, M.esz, k):
        out.append(ex.rd(st, st.mem[obj.id] if node is None else node, add(mul(idx, M.esz), i), k))
    return out


def eqcells(a, b, w):
    return band(*[eq(x, y, w) for x, y in zip(a, b)])


def check_inv(ex, st, M, role):
    C = bv(M.C, 64)
    q = M.q
    g = {f: ex.rd(st, st.mem[q.id], M.o[f], 8) for f in ('w', 'r', 'rc', 'wc', 'cc')}
    ex.check(st, band(*[ult(g[f], M.C) for f in ('w', 'r', 'rc', 'wc')]), 'J: indices stay inside the ring', 'post', tags=('inv',))
    ex.check(st, nbool(z3.UGE(occ(g['w'], g['rc'], C), occ(g['w'], g['r'], C))), "J: producer's view of the reader is never ahead of the reader", 'post', tags=('inv', 'cache'))
    ex.check(st, nbool(z3.ULE(occ(g['wc'], g['r'], C), occ(g['w'], g['r'], C))), "J: consumer's view of the writer is never ahead of the writer", 'post', tags=('inv', 'cache'))
    ex.check(st, eq(g['cc'], M.C), 'J: cached capacity intact', 'post', tags=('inv',))
    if role == 'producer':
        ex.check(st, z3.UGE(occ(g['w'], g['rc'], C), occ(g['w'], st.ghost['A'], C)), 'J: cached reader position was acquired', 'ordering', tags=('order', 'inv'))
    else:
        ex.check(st, z3.ULE(occ(g['wc'], g['r'], C), occ(st.ghost['B'], g['r'], C)), 'J: cached writer position was acquired', 'ordering', tags=('order', 'inv'))


def fresh_arg(ex, st, M, name, count=1):
    n = mul(count, M.esz) if not isinstance(count, int) else count * M.esz
    return ex.new_obj(st, name, n, esz=CELL[M.tag])


def skolem(ex, st, name, bound):
    d = z3.BitVec('%s!sk%d' % (name, next(ex.n)), 64)
    return d, z3.ULT(d, bv(bound, 64))


def contents_kept(ex, st, M, w, r, tags=('fifo',), name='unread elements are unchanged'):
    """for all d < occ(w, r): slot (r+d) is as before the call"""
    d, g = skolem(ex, st, 'd', occ(w, r, M.C))
    s2 = st.fork()
    s2.assume(g)
    pos = norm(ringadd(r, d, M.C))
    a = slot_val(ex, s2, M, pos)
    b = slot_val(ex, s2, M, pos, M.st0.mem[M.bufobj.id])
    ex.check(s2, eqcells(a, b, 8 * CELL[M.tag]), name, 'post', tags=tags)


def verify_method(ex, tag, mode, meth, chan=None, role=None):
    """discharge the contract of one method; obligations accumulate in ex.obls"""
    st, M = setup(ex, tag, mode, chan)
    role = role or ('producer' if meth in PRODUCER else 'consumer')
    C, q, e = M.C, M.q, M.esz
    cw = 8 * CELL[tag]
    fn = '%s__%s' % (chan or tag, meth)
    self = Ptr(q, 0)
    if ex.assume_valid(st) is not True:
        ex.obls.append(vac(ex, 'precondition of %s is satisfiable' % meth, False))
    args = [self]
    arg = None
    n = None
    outs = []
    # the real function sees a writable object even where the language says const
    if meth in ('push', 'push_rv', 'try_push', 'try_push_rv', 'pop', 'try_pop'):
        arg = fresh_arg(ex, st, M, 'val')
        args.append(Ptr(arg, 0))
    elif meth in ('writeN', 'readN'):
        n = z3.BitVec('count', 64)
        st.assume(z3.ULE(n, BV(1 << 40, 64)))
        arg = fresh_arg(ex, st, M, 'src' if meth == 'writeN' else 'dst', n)
        args += [Ptr(arg, 0), n]
    elif meth in ('peek_write', 'peek_read'):
        for k in ('p1', 's1', 'p2', 's2'):
            ob = ex.new_obj(st, k, 8)
            outs.append(ob)
            args.append(Ptr(ob, 0))
    elif meth in ('read_dbf', 'write_dbf'):
        for k in ('p', 'n'):
            ob = ex.new_obj(st, k, 8)
            outs.append(ob)
            args.append(Ptr(ob, 0))
    elif meth in ('commit_read', 'commit_write'):
        n = z3.BitVec('count', 64)
        if meth == 'commit_read':
            st.assume(z3.ULE(n, occ(M.w, M.r, C)))
            st.ghost['B'] = M.w     # the caller established availability (size() or a read view)
        else:
            st.assume(z3.ULE(n, bv(C, 64) - 1 - occ(M.w, M.r, C)))
            st.ghost['A'] = M.r
        args.append(n)
    M.st0 = st.fork()
    install(ex, M, role, meth in ('push', 'push_rv', 'pop'))
    spin(ex, M, meth)
    dbf_ok = mode == 'dbf'
    if meth in ('read_dbf', 'write_dbf') and not dbf_ok:
        ex.assert_policy = lambda ex_, s, msg, i: True
    finals = ex.call_function(st, fn, args)
    nret = 0
    for s in finals:
        if meth in ('read_dbf', 'write_dbf') and not dbf_ok:
            ex.check(s, s.status == 'abort', '%s on an ordinary buffer is refused' % meth, 'post', tags=('dbf',))
            nret += 1
            continue
        if s.status in ('ub', 'abort'):
            continue
        ex.check(s, s.status == 'run', '%s returns normally' % meth, 'post', tags=('ret',))
        if s.status != 'run':
            continue
        nret += 1
        post(ex, s, M, meth, role, arg, n, outs)
    ex.obls.append(vac(ex, '%s has a reachable normal outcome' % meth, nret > 0))
    return M


def vac(ex, name, ok):
    o = Obligation()
    o.name, o.kind, o.loc, o.tags, o.model, o.time, o.backend, o.fn, o.exact = name, 'vacuity', None, (), None, 0, 'cover', ex.cur_fn, True
    o.status = 'ok' if ok else 'unknown'
    return o


def spin(ex, M, meth):
    """blocking push/pop: every round of waiting makes a fresh observation, and J holds at the loop head"""
    def inv(ex_, st, fr, loop, phase, st0=None):
        C = bv(M.C, 64)
        g = {f: ex.rd(st, st.mem[M.q.id], M.o[f], 8) for f in ('w', 'r', 'rc', 'wc')}
        h = st.ghost
        fs = [ult(g[f], M.C) for f in g] + [ult(h[f], M.C) for f in ('w', 'r', 'A', 'B')]
        fs += [z3.UGE(occ(g['w'], g['rc'], C), occ(g['w'], g['r'], C)),
               z3.ULE(occ(g['wc'], g['r'], C), occ(g['w'], g['r'], C)),
               eq(h['w'], g['w']), eq(h['r'], g['r'])]
        if meth in PRODUCER:
            fs += [z3.UGE(occ(g['w'], h['A'], C), occ(g['w'], g['r'], C))]
        if meth in CONSUMER:
            fs += [z3.ULE(occ(h['B'], g['r'], C), occ(g['w'], g['r'], C))]
        if meth in PRODUCER:
            fs += [z3.UGE(occ(g['w'], g['rc'], C), occ(g['w'], h['A'], C))]
        else:
            fs += [z3.ULE(occ(g['wc'], g['r'], C), occ(h['B'], g['r'], C))]
        if meth in CONSUMER:
            fs += [z3.UGE(occ(g['w'], M.r, C), occ(M.w, M.r, C))]
        else:
            fs += [z3.ULE(occ(M.w, g['r'], C), occ(M.w, M.r, C))]
        return fs
    ex.loop_inv = inv
    if meth not in ('push', 'push_rv', 'pop'):
        return

    def back(ex_, s, loop, head):
        ex.check(s, ult(head.ghost['loads'], s.ghost['loads']), 'every round of waiting looks at the queue again', 'post', tags=('cap', 'live'))
    ex.on_backedge = back


def post(ex, s, M, meth, role, arg, n, outs):
    C, e = bv(M.C, 64), M.esz
    cw = 8 * CELL[M.tag]
    g = s.ghost
    ret = s.ret
    w1 = ex.rd(s, s.mem[M.q.id], M.o['w'], 8)
    r1 = ex.rd(s, s.mem[M.q.id], M.o['r'], 8)
    check_inv(ex, s, M, role)
    contents_kept(ex, s, M, M.w if role == 'producer' else M.w, g['r'] if role == 'producer' else r1)

    def moved(k, what, tags=('fifo', 'cap')):
        k = bv(k, 64)
        if role == 'producer':
            ex.check(s, nbool(bv(w1, 64) == ringadd(M.w, k, C)), what, 'post', tags=tags)
        else:
            ex.check(s, nbool(bv(r1, 64) == ringadd(M.r, k, C)), what, 'post', tags=tags)

    def appended(src, cnt):
        d, gd = skolem(ex, s, 'd', cnt)
        s2 = s.fork()
        s2.assume(gd)
        a = slot_val(ex, s2, M, norm(ringadd(M.w, d, C)))
        b = obj_val(ex, s2, M, src, d, M.st0.mem[src.id])
        ex.check(s2, eqcells(a, b, cw), 'appended elements are the caller\'s, in order', 'post', tags=('fifo', 'batch'))
    spaceA = lambda r: C - 1 - occ(M.w, r, C)
    if meth in ('push', 'push_rv'):
        moved(1, 'push appends exactly one element')
        appended(arg, 1)
    elif meth in ('try_push', 'try_push_rv'):
        b = tobool(ret)
        s_t, s_f = s.fork(), s
        for ok, sx in ((True, s_t), (False, s_f)):
            c = b if ok else bnot(b)
            if not ex.feasible(sx, c):
                continue
            sx.assume(zb(c))
            if ok:
                ex.check(sx, nbool(bv(w1, 64) == ringadd(M.w, 1, C)), 'successful try_push appends exactly one element', 'post', tags=('fifo', 'cap'))
                a = slot_val(ex, sx, M, M.w)
                v = obj_val(ex, sx, M, arg, 0, M.st0.mem[arg.id])
                ex.check(sx, eqcells(a, v, cw), 'appended element is the caller\'s', 'post', tags=('fifo',))
            else:
                ex.check(sx, eq(w1, M.w), 'failed try_push appends nothing', 'post', tags=('fifo', 'cap'))
                ex.check(sx, nbool(occ(M.w, g['r'], C) == C - 1), 'try_push fails only when the queue is full', 'post', tags=('cap',))
    elif meth == 'writeN':
        lo, hi = spaceA(M.r), spaceA(g['r'])
        k = bv(ret, 64)
        ex.check(s, z3.And(z3.UGE(k, z3.If(z3.ULT(n, lo), n, lo)), z3.ULE(k, z3.If(z3.ULT(n, hi), n, hi))),
                 'writeN transfers min(requested, space)', 'post', tags=('batch', 'cap'))
        moved(k, 'writeN appends exactly the returned count')
        appended(arg, k)
    elif meth in ('pop', 'try_pop'):
        s_t = s
        if meth == 'try_pop':
            b = tobool(ret)
            s_f = s.fork()
            if ex.feasible(s_f, bnot(b)):
                s_f.assume(zb(bnot(b)))
                ex.check(s_f, eq(r1, M.r), 'failed try_pop removes nothing', 'post', tags=('fifo', 'cap'))
                ex.check(s_f, nbool(bv(g['w'], 64) == bv(M.r, 64)), 'try_pop fails only when the queue is empty', 'post', tags=('cap',))
                a = obj_val(ex, s_f, M, arg, 0)
                v = obj_val(ex, s_f, M, arg, 0, M.st0.mem[arg.id])
                ex.check(s_f, eqcells(a, v, cw), 'failed try_pop leaves the destination alone', 'post', tags=('fifo',))
            if not ex.feasible(s_t, b):
                return
            s_t.assume(zb(b))
        ex.check(s_t, nbool(bv(r1, 64) == ringadd(M.r, 1, C)), 'pop removes exactly one element', 'post', tags=('fifo', 'cap'))
        ex.check(s_t, nbool(z3.UGT(occ(g['w'], M.r, C), 0)), 'pop delivers only when an element is present', 'post', tags=('cap',))
        a = obj_val(ex, s_t, M, arg, 0)
        v = slot_val(ex, s_t, M, M.r, M.st0.mem[M.bufobj.id])
        ex.check(s_t, eqcells(a, v, cw), 'popped element is the oldest one', 'post', tags=('fifo',))
    elif meth == 'readN':
        lo, hi = occ(M.w, M.r, C), occ(g['w'], M.r, C)
        k = bv(ret, 64)
        ex.check(s, z3.And(z3.UGE(k, z3.If(z3.ULT(n, lo), n, lo)), z3.ULE(k, z3.If(z3.ULT(n, hi), n, hi))),
                 'readN transfers min(requested, available)', 'post', tags=('batch', 'cap'))
        moved(k, 'readN removes exactly the returned count')
        d, gd = skolem(ex, s, 'd', k)
        s2 = s.fork()
        s2.assume(gd)
        a = obj_val(ex, s2, M, arg, d)
        b = slot_val(ex, s2, M, norm(ringadd(M.r, d, C)), M.st0.mem[M.bufobj.id])
        ex.check(s2, eqcells(a, b, cw), 'delivered elements are the oldest ones, in order', 'post', tags=('fifo', 'batch'))
        s3 = s.fork()
        d, gd = skolem(ex, s, 'd', n)
        s3.assume(gd)
        s3.assume(z3.UGE(d, k))
        a = obj_val(ex, s3, M, arg, d)
        b = obj_val(ex, s3, M, arg, d, M.st0.mem[arg.id])
        ex.check(s3, eqcells(a, b, cw), 'destination beyond the returned count is untouched', 'post', tags=('batch',))
    elif meth in ('peek_write', 'peek_read'):
        p1, s1, p2, s2v = [ex.rd(s, s.mem[ob.id], 0, 8) for ob in outs]
        own = M.w if meth == 'peek_write' else M.r
        if meth == 'peek_write':
            lo, hi = spaceA(M.r), spaceA(g['r'])
        else:
            lo, hi = occ(M.w, M.r, C), occ(g['w'], M.r, C)
        k = bv(ret, 64)
        ex.check(s, z3.And(z3.UGE(k, lo), z3.ULE(k, hi)), '%s reports exactly what is there' % meth, 'post', tags=('peek', 'cap'))
        ex.check(s, z3.And(bv(s1, 64) + bv(s2v, 64) == k, z3.ULE(bv(s1, 64), k)), 'view sizes add up to the reported total', 'post', tags=('peek',))
        ex.check(s, z3.ULE(bv(own, 64) + bv(s1, 64), C), 'first view stays inside the buffer', 'post', tags=('peek',))
        ex.check(s, z3.Implies(bv(s2v, 64) != 0, bv(own, 64) + bv(s1, 64) == C), 'second view exists only after the first reaches the end', 'post', tags=('peek',))
        for p, sz, pos, nm in ((p1, s1, own, 'first'), (p2, s2v, 0, 'second')):
            z = eq(sz, 0)
            if isinstance(p, Ptr) and p.obj is M.bufobj:
                okp = eq(p.off, add(M.bufoff, mul(pos, e)))
            else:
                okp = z
            ex.check(s, bor(z, okp), '%s view points at the right slot' % nm, 'post', tags=('peek',))
            if isinstance(p, Ptr) and p.obj is None:
                ex.check(s, z, 'null view is empty', 'post', tags=('peek',))
        moved(0, '%s moves nothing' % meth, tags=('peek', 'fifo'))
        know_ok(ex, s, M, meth)
    elif meth in ('read_dbf', 'write_dbf'):
        p, k = [ex.rd(s, s.mem[ob.id], 0, 8) for ob in outs]
        own = M.w if meth == 'write_dbf' else M.r
        if meth == 'write_dbf':
            lo, hi = spaceA(M.r), spaceA(g['r'])
        else:
            lo, hi = occ(M.w, M.r, C), occ(g['w'], M.r, C)
        ex.check(s, z3.And(z3.UGE(bv(k, 64), lo), z3.ULE(bv(k, 64), hi)), '%s reports exactly what is there' % meth, 'post', tags=('dbf', 'cap'))
        z = eq(k, 0)
        okp = band(eq(p.off, mul(own, e))) if isinstance(p, Ptr) and p.obj is M.bufobj else z
        ex.check(s, bor(z, okp), 'contiguous view starts at the right slot', 'post', tags=('dbf',))
        moved(0, '%s moves nothing' % meth, tags=('dbf', 'fifo'))
        know_ok(ex, s, M, meth)
    elif meth in ('commit_read', 'commit_write'):
        moved(n, '%s advances by exactly the committed count' % meth, tags=('fifo', 'cap', 'dbf', 'peek'))
        d, gd = skolem(ex, s, 'd', C)
        s2 = s.fork()
        s2.assume(gd)
        a = slot_val(ex, s2, M, d)
        b = slot_val(ex, s2, M, d, M.st0.mem[M.bufobj.id])
        ex.check(s2, eqcells(a, b, cw), '%s leaves every slot as the caller left it' % meth, 'post', tags=('fifo', 'peek', 'dbf'))
    elif meth == 'size' or meth == 'space':
        k = bv(ret, 64)
        if meth == 'space':
            k = C - 1 - k
            ex.check(s, z3.ULE(bv(ret, 64), C - 1), 'space never exceeds the capacity', 'post', tags=('cap',))
        a, b = occ(M.w, M.r, C), occ(g['w'], g['r'], C)
        lo, hi = (b, a) if role == 'producer' else (a, b)
        ex.check(s, z3.And(z3.UGE(k, lo), z3.ULE(k, hi)), '%s is exact (up to what the peer does meanwhile)' % meth, 'post', tags=('cap',))
        moved(0, '%s moves nothing' % meth, tags=('cap',))
    elif meth == 'empty':
        b = tobool(ret)
        a, c = occ(M.w, M.r, C) == 0, occ(g['w'], g['r'], C) == 0
        if role == 'producer':
            ex.check(s, z3.And(z3.Implies(zb(b), c), z3.Implies(a, zb(b))), 'empty is truthful', 'post', tags=('cap',))
        else:
            ex.check(s, z3.And(z3.Implies(zb(b), a), z3.Implies(c, zb(b))), 'empty is truthful', 'post', tags=('cap',))
        moved(0, 'empty moves nothing', tags=('cap',))
    elif meth == 'capacity':
        ex.check(s, nbool(bv(ret, 64) == C - 1), 'capacity is the usable capacity', 'post', tags=('cap',))
    elif meth == 'is_doubly_mapped':
        b = tobool(ret)
        ex.check(s, zb(b) == z3.BoolVal(M.mode == 'dbf'), 'is_doubly_mapped is truthful', 'post', tags=('dbf',))


def know_ok(ex, s, M, meth):
    """a granted view must rest on an acquire load of the peer index"""
    g = s.ghost
    C = bv(M.C, 64)
    if meth in ('peek_write', 'write_dbf'):
        k = s.ret if meth == 'peek_write' else None
        ex.check(s, z3.ULE(occ(M.w, g['A'], C), occ(M.w, M.r, C)), 'granted space rests on an acquire load', 'ordering', tags=('order',))
    else:
        ex.check(s, z3.UGE(occ(g['B'], M.r, C), occ(M.w, M.r, C)), 'granted data rests on an acquire load', 'ordering', tags=('order',))
