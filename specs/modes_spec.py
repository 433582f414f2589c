"""Contracts of the Mode S decoder (C17) and of the two detectors (C18)

The parity contract is the remainder by the Mode S generator polynomial: bit j of an n-bit message contributes the column
x^(n-1-j) mod G (nothing in the last 24 bits), and the contract's ghost prefix sum P(j) of the columns of the set bits is what
the loop of the checksum has computed after j bits.  Callers see the uninterpreted function crc_n(message).
"""
import z3
from terms import *
from symex import *
from symex import BaseArr, Region, FnPtr, Multi
import queue_spec as Q

G = 0x1FFF409
F32 = 4
TAG = ('decode',)
FIELDS = ('msg msgbits msgtype crcok crc errorbit aa1 aa2 aa3 phase_corrected ca metype mesub heading_is_valid heading aircraft_type fflag tflag raw_latitude '
          'raw_longitude flight ew_dir ew_velocity ns_dir ns_velocity vert_rate_source vert_rate_sign vert_rate velocity fs dr um identity altitude unit').split()
AP = (0, 4, 5, 16, 20, 21, 24)
CHARS = "?ABCDEFGHIJKLMNOPQRSTUVWXYZ????? ???????????????0123456789??????"


def column(n, j):
    """x^(n-1-j) mod G of a bit of the message proper, computed by long division"""
    if j >= n - 24:
        return 0
    r = 1
    for _ in range(n - 1 - j):
        r <<= 1
        if r >> 24:
            r ^= G
    return r


def nbits(df):
    return 112 if df in (16, 17, 19, 20, 21) else 56


def nz(t):
    return nbool(t)


def byte_at(ex, s, p, i):
    return bv(ex.rd(s, s.mem[p.obj.id], add(p.off, i, 64), 1), 8)


def message(ex, s, p, n):
    return norm(z3.Concat(*[byte_at(ex, s, p, i) for i in range(n // 8)]))


def write_message(ex, s, p, n, M):
    for i in range(n // 8):
        ex.wr(s, p.obj, add(p.off, i, 64), 1, norm(z3.Extract(n - 1 - 8 * i, n - 8 - 8 * i, M)))


def crc(ex, M):
    n = M.size()
    ex.ufnames.add('crc%d' % n)
    return z3.Function('crc%d' % n, bvs(n), bvs(24))(M)


def last24(M):
    return z3.Extract(23, 0, M)


def valid(ex, M):
    return crc(ex, M) == last24(M)


def flip(M, j):
    n = M.size()
    j = z3.ZeroExt(n - j.size(), j) if n > j.size() else z3.Extract(n - 1, 0, j)
    return M ^ (BV(1, n) << (BV(n - 1, n) - j))


def usable(ex, s, what):
    if s.status == 'throw':
        ex.check(s, False, what + ' does not throw', 'post', tags=TAG)
        return False
    return s.status not in ('dead', 'ub')


# ---------------------------------------------------------------- parity
def verify_checksum(ex, n):
    ex.use_lia = False
    st = State()
    msg = ex.new_obj(st, 'message', n // 8, 'param', 1, ro=True)
    P = Ptr(msg, 0)
    M = message(ex, st, P, n)
    S = z3.Function('P%d' % n, bvs(32), bvs(32))
    W = z3.Function('W%d' % n, bvs(32), bvs(32))
    st.assume(S(BV(0, 32)) == 0)
    for j in range(n):
        st.assume(W(BV(j, 32)) == BV(column(n, j), 32))

    def bit(j):
        j = z3.ZeroExt(n - 32, j)
        return z3.Extract(0, 0, z3.LShR(M, BV(n - 1, n) - j)) == 1

    def phis(loop):
        return [i for i in loop.header.insts if i.op == 'phi' and i.ty.k == 'int' and i.ty.n in (32, 64)]

    def val(s, p):
        v = s.frames[-1].env[p.id]
        return z3.Extract(31, 0, bv(v, 64)) if p.ty.n == 64 else bv(v, 32)

    def inv(ex, s, fr, loop, phase, st0):
        if phase != 'assume':
            return []
        # the prefix sum is defined by its recursion: instances for every counter of the loop
        out = []
        for p in phis(loop):
            j = val(s, p)
            out.append(nz(z3.Implies(z3.ULT(j, BV(n, 32)), S(j + 1) == S(j) ^ z3.If(bit(j), W(j), BV(0, 32)))))
        return out

    def cands(ex, st0, sp, loop):
        ps = phis(loop)
        return [lambda s, a=a, b=b: nz(val(s, a) == S(val(s, b))) for a in ps for b in ps if a is not b] + \
               [lambda s, a=a: nz(z3.ULE(val(s, a), BV(n, 32))) for a in ps]
    ex.loop_inv, ex.loop_cands = inv, cands
    ex.loop_mode = lambda fn, loop: 'cut'
    k = 0
    for s in ex.call_function(st, 'mode_s_checksum', [P, n]):
        if not usable(ex, s, 'the checksum'):
            continue
        k += 1
        ex.check(s, nz(bv(s.ret, 32) == S(BV(n, 32))), 'the parity of a message is the remainder by the generator polynomial', 'post', tags=TAG)
    ex.check(State(), k > 0, 'the checksum returns', 'post', tags=TAG)


def verify_columns(ex):
    """lemma over the parity contract: no single wrong bit goes unnoticed, and no two single flips can be confused"""
    for n in (56, 112):
        syn = [column(n, j) if j < n - 24 else 1 << (n - 1 - j) for j in range(n)]
        ex.check(State(), all(syn), 'every single wrong bit of %d is noticed' % n, 'lemma', tags=TAG)
        ex.check(State(), len(set(syn)) == n, 'single wrong bits of %d have different syndromes: only the right bit restores the checksum' % n, 'lemma', tags=TAG)


def contract_checksum(ex, s, a, inst):
    n = a[1]
    if not isinstance(n, int):
        for c in (56, 112):
            if ex.prove(s, nz(bv(n, 32) == c)):
                n = c
                break
    if n not in (56, 112):
        ex.check(s, False, 'the checksum is asked for 56 or 112 bits', 'pre', tags=TAG)
        return ex.fresh(s, 'crc', 32)
    p = a[0]
    ex.bound(s, p, n // 8, 'message', inst)
    return norm(z3.ZeroExt(8, crc(ex, message(ex, s, p, n))))


# ---------------------------------------------------------------- repair
def verify_single(ex, n):
    ex.use_lia = False
    st = State()
    msg = ex.new_obj(st, 'message', n // 8, 'param', 1)
    P = Ptr(msg, 0)
    M = message(ex, st, P, n)
    ex.contracts['mode_s_checksum'] = contract_checksum
    k = 0
    for s in ex.call_function(st, 'fix_single_bit_errors', [P, n]):
        if not usable(ex, s, 'the repair'):
            continue
        k += 1
        r = bv(s.ret, 32)
        N = message(ex, s, P, n)
        none = nz(r == BV(mask(32), 32))
        ex.check(s, bor(none, nz(z3.ULT(r, BV(n, 32)))), 'the repaired bit is a bit of the message', 'post', tags=TAG)
        ex.check(s, bor(bnot(none), nz(N == M)), 'a message that cannot be repaired is left alone', 'post', tags=TAG)
        ex.check(s, bor(none, nz(N == flip(M, r))), 'a repair flips exactly the reported bit', 'post', tags=TAG)
        ex.check(s, bor(none, nz(valid(ex, N))), 'a repaired message has a valid checksum', 'post', tags=TAG)
        if ex.prove(s, none):
            for j in range(n):
                ex.check(s, nz(z3.Not(valid(ex, norm(z3.simplify(flip(M, BV(j, 32))))))), 'a message is given up only when no single bit repairs it', 'post', tags=TAG)
    ex.check(State(), k > 0, 'the repair returns', 'post', tags=TAG)


def verify_two(ex, n):
    ex.use_lia = False
    st = State()
    msg = ex.new_obj(st, 'message', n // 8, 'param', 1)
    P = Ptr(msg, 0)
    M = message(ex, st, P, n)
    ex.contracts['mode_s_checksum'] = contract_checksum
    ex.loop_mode = lambda fn, loop: 'cut'

    def cands(ex, st0, sp, loop):
        fr = st0.frames[-1]
        ps = [i for i in loop.header.insts if i.op == 'phi' and i.ty.k == 'int' and i.ty.n in (32, 64)]
        known = [i for blk in fr.fn.blocks for i in blk.insts if i.op == 'phi' and i.ty.k == 'int' and i.ty.n in (32, 64) and i.id in fr.env]

        def val(s, p):
            v = s.frames[-1].env[p.id] if p in ps else fr.env[p.id]       # (outer counters do not move)
            return z3.Extract(31, 0, bv(v, 64)) if p.ty.n == 64 else bv(v, 32)
        out = []
        for p in ps:
            out += [lambda s, p=p, c=c: nz(z3.ULE(val(s, p), BV(c, 32))) for c in (n - 1, n, n + 1)]
            out.append(lambda s, p=p: nz(z3.UGE(val(s, p), BV(1, 32))))
            for q in known:
                if q is not p:
                    out.append(lambda s, p=p, q=q: nz(z3.ULT(val(s, q), val(s, p))))
                    out.append(lambda s, p=p, q=q: nz(z3.ULE(val(s, q), val(s, p))))
        return out
    ex.loop_cands = cands
    k = 0
    for s in ex.call_function(st, 'fix_two_bits_errors', [P, n]):
        if not usable(ex, s, 'the repair'):
            continue
        k += 1
        r = bv(s.ret, 32)
        N = message(ex, s, P, n)
        none = nz(r == BV(mask(32), 32))
        j, i = r & 0xff, z3.LShR(r, 8)
        ex.check(s, bor(none, nz(z3.And(z3.ULT(j, i), z3.ULT(i, BV(n, 32))))), 'the repaired bits are two bits of the message', 'post', tags=TAG)
        ex.check(s, bor(bnot(none), nz(N == M)), 'a message that cannot be repaired is left alone', 'post', tags=TAG)
        ex.check(s, bor(none, nz(N == flip(flip(M, j), i))), 'a repair flips exactly the two reported bits', 'post', tags=TAG)
        ex.check(s, bor(none, nz(valid(ex, N))), 'a repaired message has a valid checksum', 'post', tags=TAG)
    ex.check(State(), k > 0, 'the repair returns', 'post', tags=TAG)


# ---------------------------------------------------------------- recently seen addresses
def state_obj(ex, st):
    o = ex.new_obj(st, 'decoder', Q.constant(ex, 'st__sizeof'), 'param', 4)
    offs = {f: Q.constant(ex, 'st__' + f) for f in ('icao_cache', 'fix_errors', 'aggressive', 'check_crc')}
    return o, offs


def clock(ex, st):
    now = ex.fresh(st, 'now', 64)
    st.assume(z3.ULE(now, BV(1 << 31, 64)))

    def time(ex, s, a, inst):
        if isinstance(a[0], Ptr) and a[0].obj is not None:
            ex.wr(s, a[0].obj, a[0].off, 8, now)
        return now
    ex.contracts['time'] = time
    return now


def verify_seen(ex):
    """an address is trusted exactly while the cache holds it with a stamp of the last minute; noting an address makes it trusted and touches one entry"""
    ex.use_lia = False
    st = State()
    o, offs = state_obj(ex, st)
    now = clock(ex, st)
    a = z3.BitVec('address', 32)
    st.assume(z3.ULT(a, BV(1 << 24, 32)))
    p = ex.fresh(st, 'p', 64)
    st.assume(z3.ULT(p, BV(o.size // 4, 64)))

    def word(s, i):
        return bv(ex.rd(s, s.mem[o.id], mul(i, 4, 64), 4), 32)
    for s in ex.call_function(st.fork(), 'icao_addr_was_recently_seen', [Ptr(o, 0), a]):
        if not usable(ex, s, 'the look-up'):
            continue
        r = bv(s.ret, 32) != 0
        ex.check(s, nz(word(s, p) == word(st, p)), 'looking an address up changes nothing', 'post', tags=TAG)
        ex.check(s, nz(z3.Implies(a == 0, z3.Not(r))), 'no address is never trusted', 'post', tags=TAG)
    # note, then look up at any later time within the minute
    for s in ex.call_function(st.fork(), 'add_recently_seen_icao_addr', [Ptr(o, 0), a]):
        if not usable(ex, s, 'noting an address'):
            continue
        for f in ('fix_errors', 'aggressive', 'check_crc'):
            ex.check(s, nz(word(s, BV(offs[f] // 4, 64)) == word(st, BV(offs[f] // 4, 64))), 'noting an address leaves the configuration alone', 'post', tags=TAG)
        changed = word(s, p) != word(st, p)
        ex.check(s, nz(z3.Implies(changed, z3.Or(word(s, p) == a, word(s, p) == z3.Extract(31, 0, now)))), 'noting an address writes the address and the time', 'post', tags=TAG)
        later = ex.fresh(s, 'later', 64)
        s.assume(z3.And(z3.UGE(later, now), z3.ULE(later, BV(1 << 31, 64) - 1), a != 0))
        ex.contracts['time'] = lambda ex, s2, x, inst: later
        for t in ex.call_function(s, 'icao_addr_was_recently_seen', [Ptr(o, 0), a]):
            if usable(ex, t, 'the look-up'):
                ex.check(t, nz((bv(t.ret, 32) != 0) == z3.ULE(later - now, BV(60, 64))), 'an address is trusted for exactly the next 60 seconds', 'post', tags=TAG)
        b = z3.BitVec('other', 32)
        s2 = s.fork()
        s2.assume(b != a)
        s0 = st.fork()
        s0.pc = list(s2.pc)
        ex.contracts['time'] = lambda ex, s3, x, inst: later
        for t0 in ex.call_function(s0, 'icao_addr_was_recently_seen', [Ptr(o, 0), b]):
            u = s2.fork()
            u.pc = list(t0.pc)
            for t in ex.call_function(u, 'icao_addr_was_recently_seen', [Ptr(o, 0), b]):
                if usable(ex, t, 'the look-up'):
                    ex.check(t, nz(z3.Implies(bv(t.ret, 32) != 0, bv(t0.ret, 32) != 0)), 'noting an address makes no other address trusted', 'post', tags=TAG)


def seen(ex, A):
    ex.ufnames.add('seen')
    return z3.Function('seen', bvs(24), bvs(1))(A) == 1


def contract_seen(ex, s, a, inst):
    x = bv(a[1], 32)
    ex.check(s, nz(z3.ULT(x, BV(1 << 24, 32))), 'an address has 24 bits', 'pre', tags=TAG)
    return norm(z3.If(seen(ex, z3.Extract(23, 0, x)), BV(1, 32), BV(0, 32)))


def mm_obj(ex, st, init='sym'):
    o = ex.new_obj(st, 'report', Q.constant(ex, 'mm__sizeof'), 'param', 1, init=init)
    return o, {f: Q.constant(ex, 'mm__' + f) for f in FIELDS}


def fld(ex, s, o, off, w=4):
    return bv(ex.rd(s, s.mem[o.id], off, w), 8 * w)


def verify_address(ex, df):
    ex.use_lia = False
    st = State()
    n = nbits(df)
    o, _ = state_obj(ex, st)
    mm, off = mm_obj(ex, st)
    msg = ex.new_obj(st, 'message', n // 8, 'param', 1, ro=True)
    P = Ptr(msg, 0)
    M = message(ex, st, P, n)
    ex.wr(st, mm, off['msgtype'], 4, df)
    ex.wr(st, mm, off['msgbits'], 4, n)
    ex.contracts['mode_s_checksum'] = contract_checksum
    ex.contracts['icao_addr_was_recently_seen'] = contract_seen
    A = norm(crc(ex, M) ^ last24(M))
    k = 0
    for s in ex.call_function(st, 'brute_force_ap', [Ptr(o, 0), P, Ptr(mm, 0)]):
        if not usable(ex, s, 'the address recovery'):
            continue
        k += 1
        got = bv(s.ret, 32) == 1
        want = seen(ex, A) if df in AP else z3.BoolVal(False)
        ex.check(s, nz(got == want), 'a reply is accepted exactly when its recovered address was seen recently', 'post', tags=TAG)
        ex.check(s, nz(z3.Or(bv(s.ret, 32) == 0, got)), 'the answer is yes or no', 'post', tags=TAG)
        p = ex.fresh(s, 'p', 64)
        own = z3.Or(*[z3.And(z3.UGE(p, BV(off[f], 64)), z3.ULT(p, BV(off[f] + 4, 64))) for f in ('aa1', 'aa2', 'aa3')])
        s.assume(z3.ULT(p, BV(mm.size, 64)))
        same = bv(ex.rd(s, s.mem[mm.id], p, 1), 8) == bv(ex.rd(st, st.mem[mm.id], p, 1), 8)
        ex.check(s, nz(z3.Or(same, z3.And(own, got))), 'only the address of an accepted reply is written', 'post', tags=TAG)
        for i, f in enumerate(('aa1', 'aa2', 'aa3')):
            ex.check(s, nz(z3.Implies(got, fld(ex, s, mm, off[f]) == z3.ZeroExt(24, z3.Extract(23 - 8 * i, 16 - 8 * i, A)))), 'the recovered address is the difference of checksum and parity field', 'post', tags=TAG)
    ex.check(State(), k > 0, 'the address recovery returns', 'post', tags=TAG)


# ---------------------------------------------------------------- decoding
def verify_decode(ex, df):
    ex.use_lia = False
    n = nbits(df)
    st = State()
    o, soff = state_obj(ex, st)
    mm, off = mm_obj(ex, st)
    msg = ex.new_obj(st, 'input', 14, 'param', 1)
    head = z3.BitVec('head', 3)
    ex.wr(st, msg, 0, 1, norm(z3.Concat(BV(df, 5), head)))
    msg.ro = True
    PI = Ptr(msg, 0)
    PM = Ptr(mm, off['msg'])
    M = message(ex, st, PI, n)
    fix = fld(ex, st, o, soff['fix_errors']) != 0
    agg = fld(ex, st, o, soff['aggressive']) != 0
    ok0 = valid(ex, M)
    st.ghost.update(single=0, noted=0)

    def where(s, p, what):
        ex.check(s, isinstance(p, Ptr) and p.obj is mm and p.off == off['msg'], what + ' works on the copy of the message', 'pre', tags=TAG)
        return isinstance(p, Ptr) and p.obj is mm

    def single(ex, s, a, inst):
        if not where(s, a[0], 'repair') or a[1] != n:
            ex.check(s, a[1] == n, 'repair covers the whole message', 'pre', tags=TAG)
        N = message(ex, s, a[0], n)
        no, yes = s.fork(), s.fork()
        no.ghost['single'] = 1
        j = ex.fresh(yes, 'bit', 32)
        yes.assume(z3.ULT(j, BV(n, 32)))
        R = norm(flip(N, j))
        yes.assume(valid(ex, R))
        write_message(ex, yes, a[0], n, R)
        return Multi([(no, mask(32)), (yes, j)])

    def two(ex, s, a, inst):
        where(s, a[0], 'repair')
        ex.check(s, a[1] == n, 'repair covers the whole message', 'pre', tags=TAG)
        N = message(ex, s, a[0], n)
        no, yes = s.fork(), s.fork()
        j, i = ex.fresh(yes, 'bit', 32), ex.fresh(yes, 'bit2', 32)
        yes.assume(z3.And(z3.ULT(j, i), z3.ULT(i, BV(n, 32))))
        R = norm(flip(flip(N, j), i))
        yes.assume(valid(ex, R))
        write_message(ex, yes, a[0], n, R)
        return Multi([(no, mask(32)), (yes, norm(j | (i << 8)))])

    def address(ex, s, a, inst):
        where(s, a[1], 'address recovery')
        ok = isinstance(a[2], Ptr) and a[2].obj is mm and a[2].off == 0
        ex.check(s, ok, 'address recovery reports into the report', 'pre', tags=TAG)
        ex.check(s, nz(z3.And(fld(ex, s, mm, off['msgtype']) == df, fld(ex, s, mm, off['msgbits']) == n)), 'address recovery knows the kind and length of the message', 'pre', tags=TAG)
        N = message(ex, s, a[1], n)
        if df not in AP:
            return 0
        A = norm(crc(ex, N) ^ last24(N))
        no, yes = s.fork(), s.fork()
        no.assume(z3.Not(seen(ex, A)))
        yes.assume(seen(ex, A))
        for i, f in enumerate(('aa1', 'aa2', 'aa3')):
            ex.wr(yes, mm, off[f], 4, norm(z3.ZeroExt(24, z3.Extract(23 - 8 * i, 16 - 8 * i, A))))
        return Multi([(no, 0), (yes, 1)])

    def add_addr(ex, s, a, inst):
        ex.check(s, isinstance(a[0], Ptr) and a[0].obj is o and a[0].off == 0, 'the address is noted in this decoder', 'pre', tags=TAG)
        s.ghost['noted'] = 1 if s.ghost['noted'] == 0 else 2
        s.ghost['who'] = norm(bv(a[1], 32))
        return None
    ex.contracts.update({'mode_s_checksum': contract_checksum, 'fix_single_bit_errors': single, 'fix_two_bits_errors': two, 'brute_force_ap': address, 'add_recently_seen_icao_addr': add_addr})
    st.ghost['who'] = BV(0, 32)
    k = 0
    for s in ex.call_function(st, 'mode_s_decode', [Ptr(o, 0), Ptr(mm, 0), PI]):
        if not usable(ex, s, 'decoding'):
            continue
        k += 1
        decoded(ex, st, s, df, n, M, mm, off, o, soff, PM, fix, agg, ok0)
    ex.check(State(), k > 0, 'decoding returns', 'post', tags=TAG)


def decoded(ex, st, s, df, n, M, mm, off, o, soff, PM, fix, agg, ok0):
    own = df in (11, 17)
    N = message(ex, s, PM, n)
    e = fld(ex, s, mm, off['errorbit'])
    none = e == BV(mask(32), 32)

    def chk(f, name):
        ex.check(s, nz(f), name, 'post', tags=TAG)
    lo, hi = e & 0xff, z3.LShR(e, 8)
    chk(z3.Implies(none, N == M), 'a message that is not repaired is stored unchanged')
    if own:
        chk(z3.Implies(z3.Not(none), z3.And(fix, z3.Not(ok0))), 'only a broken message is repaired, and only when repair is on')
        chk(z3.Implies(z3.Not(none), valid(ex, N)), 'a repaired message has a valid checksum')
        chk(z3.Implies(z3.Not(none), z3.Or(z3.And(z3.ULT(e, BV(n, 32)), N == flip(M, e)), z3.And(agg, df == 17, hi != 0, z3.ULT(lo, hi), z3.ULT(hi, BV(n, 32)), N == flip(flip(M, lo), hi)))),
            'a repair flips exactly the reported bits: one, or two in the aggressive mode')
        chk(z3.Implies(z3.And(none, fix, z3.Not(ok0)), z3.BoolVal(s.ghost['single'] == 1)), 'a broken message is given up only when no single bit repairs it')
    else:
        chk(none, 'only messages with a plain checksum are repaired')
    chk(fld(ex, s, mm, off['msgtype']) == df, 'the kind of a message is its first five bits')
    chk(fld(ex, s, mm, off['msgbits']) == n, 'the length of a message follows from its kind')
    A = norm(crc(ex, M) ^ last24(M))
    acc = seen(ex, A) if df in AP else z3.BoolVal(False)
    good = fld(ex, s, mm, off['crcok'])
    chk(z3.Or(good == 0, good == 1), 'the verdict is yes or no')
    chk((good != 0) == (z3.Or(ok0, z3.Not(none)) if own else acc), 'a message is accepted exactly when its checksum is valid, was repaired, or gives a recently seen address')
    chk(fld(ex, s, mm, off['crc']) == z3.ZeroExt(8, z3.If(none, last24(M), crc(ex, N))), 'the reported parity is that of the message')

    def b(a, c):
        x = z3.Extract(n - 1 - a, n - a - c, N)
        return norm(z3.ZeroExt(32 - c, x)) if c < 32 else x

    def bit(a):
        return z3.Extract(n - 1 - a, n - 1 - a, N)

    def cat(*bs):
        x = z3.Concat(*bs) if len(bs) > 1 else bs[0]
        return z3.ZeroExt(32 - x.size(), x)
    addr = [z3.Extract(23 - 8 * i, 16 - 8 * i, A) for i in range(3)]
    for i, f in enumerate(('aa1', 'aa2', 'aa3')):
        plain = b(8 + 8 * i, 8)
        chk(fld(ex, s, mm, off[f]) == (z3.If(acc, z3.ZeroExt(24, addr[i]), plain) if not own else plain), 'the address is that of the message, or the recovered one')
    x = [bit(19 + i) for i in range(13)]
    d = [cat(x[5], x[3], x[1]), cat(x[11], x[9], x[7]), cat(x[4], x[2], x[0]), cat(x[12], x[10], x[8])]
    zero = BV(0, 32)
    E = {f: zero for f in FIELDS if f not in ('msg', 'flight', 'msgbits', 'msgtype', 'crcok', 'crc', 'errorbit', 'aa1', 'aa2', 'aa3')}
    E.update(ca=b(5, 3), fs=b(5, 3), dr=b(8, 5), um=b(13, 6), metype=b(32, 5), mesub=b(37, 3), identity=d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3])
    fl = [BV(0, 8)] * 9
    me, sub = b(32, 5), b(37, 3)
    if df in (0, 4, 16, 20):
        m, q = bit(25) == 1, bit(27) == 1
        E['unit'] = z3.If(m, BV(1, 32), zero)
        E['altitude'] = z3.If(z3.And(z3.Not(m), q), cat(z3.Extract(n - 20, n - 25, N), bit(26), z3.Extract(n - 29, n - 32, N)) * 25 - 1000, zero)
    fuzzy = {}
    if df == 17:
        ident = z3.And(z3.UGE(me, 1), z3.ULE(me, 4))
        pos = z3.And(z3.UGE(me, 9), z3.ULE(me, 18))
        ground = z3.And(me == 19, z3.Or(sub == 1, sub == 2))
        air = z3.And(me == 19, z3.Or(sub == 3, sub == 4))
        sel = lambda c, v: z3.If(c, v, zero)
        E['aircraft_type'] = sel(ident, me - 1)
        for i in range(8):
            c = z3.Extract(n - 41 - 6 * i, n - 46 - 6 * i, N)
            t = BV(ord(CHARS[63]), 8)
            for v in range(62, -1, -1):
                t = z3.If(c == v, BV(ord(CHARS[v]), 8), t)
            fl[i] = z3.If(ident, t, BV(0, 8))
        E['fflag'] = sel(pos, cat(bit(53)) << 2)
        E['tflag'] = sel(pos, cat(bit(52)) << 3)
        E['raw_latitude'] = sel(pos, b(54, 17))
        E['raw_longitude'] = sel(pos, b(71, 17))
        E['altitude'] = sel(z3.And(pos, bit(47) == 1), cat(z3.Extract(n - 41, n - 47, N), z3.Extract(n - 49, n - 52, N)) * 25 - 1000)
        E['ew_dir'], E['ns_dir'] = sel(ground, cat(bit(45))), sel(ground, cat(bit(56)))
        E['ew_velocity'], E['ns_velocity'] = sel(ground, b(46, 10)), sel(ground, b(57, 10))
        E['vert_rate_source'], E['vert_rate_sign'], E['vert_rate'] = sel(ground, cat(bit(67))), sel(ground, cat(bit(68))), sel(ground, b(69, 9))
        E['heading_is_valid'] = sel(air, cat(bit(45)) << 2)
        E.pop('velocity')
        E.pop('heading')
        fuzzy = dict(ground=ground, air=air, ew=b(46, 10), ns=b(57, 10), h7=z3.Extract(n - 1 - 46, n - 46 - 7, N))
    for f, w in E.items():
        chk(fld(ex, s, mm, off[f]) == w, 'the field "%s" is read from its bits of the message' % f)
    for i in range(9):
        chk(fld(ex, s, mm, off['flight'] + i, 1) == fl[i], 'the flight number is read from its bits of the message')
    for i in range(n // 8, 14):
        chk(fld(ex, s, mm, off['msg'] + i, 1) == BV(0, 8), 'nothing follows a short message')
    if df == 17:
        moving(ex, s, mm, off, fuzzy, bit)
    # addresses and configuration of the decoder
    p = ex.fresh(s, 'p', 64)
    s.assume(z3.ULT(p, BV(o.size // 4, 64)))
    chk(bv(ex.rd(s, s.mem[o.id], mul(p, 4, 64), 4), 32) == bv(ex.rd(st, st.mem[o.id], mul(p, 4, 64), 4), 32), 'decoding itself leaves the decoder state alone')
    want = z3.And(ok0, none) if own else z3.BoolVal(False)
    chk(z3.BoolVal(s.ghost['noted'] == 1) == want, 'exactly the sender of an intact message with a plain checksum is noted')
    chk(z3.Implies(want, s.ghost['who'] == b(8, 24)), 'the address noted is that of the message')


def moving(ex, s, mm, off, f, bit):
    """speed and heading: integer facts exactly, the floating-point formula as the same operations"""
    v, h = fld(ex, s, mm, off['velocity']), fld(ex, s, mm, off['heading'])
    zero = BV(0, 32)
    other = z3.And(z3.Not(f['ground']), z3.Not(f['air']))
    ex.check(s, nz(z3.Implies(z3.Not(f['ground']), v == 0)), 'only a ground velocity message reports a speed', 'post', tags=TAG)
    ex.check(s, nz(z3.Implies(other, h == 0)), 'only a velocity message reports a heading', 'post', tags=TAG)
    ex.check(s, nz(z3.Implies(z3.And(f['ground'], v == 0), h == 0)), 'nothing that stands still has a heading', 'post', tags=TAG)
    # the same operations on the same components (an equal formula written otherwise is left to the driver: floats are uninterpreted here)
    ew, ns = f['ew'], f['ns']
    sew = z3.If(bit(45) == 1, -ew, ew)
    sns = z3.If(bit(56) == 1, -ns, ns)
    air = z3.ZeroExt(25, f['h7'])
    for cond, fld_, fn, args, name in ((f['ground'], v, 'ref__speed', (ew, ns), 'the speed is the length of the two components'),
                                       (z3.And(f['ground'], v != 0), h, 'ref__heading', (sew, sns), 'the heading is the direction of the two components'),
                                       (f['air'], h, 'ref__air_heading', (air,), 'the air heading is its field in 128ths of a turn')):
        if not ex.feasible(s, nz(cond)):
            continue
        u = s.fork()
        u.assume(nz(cond))
        for t in ex.call_function(u, fn, [norm(a) for a in args]):
            if usable(ex, t, 'the reference'):
                t.inexact = True
                ex.check(t, nz(fld_ == bv(t.ret, 32)), name, 'post', tags=TAG)


# ---------------------------------------------------------------- detectors (C18)
DTAG = ('detect',)


def verify_detect(ex, fn):
    ex.use_lia = True
    st = State()
    n = z3.BitVec('maglen', 32)
    st.assume(z3.ULE(n, BV((1 << 31) - 1, 32)))
    size = norm(z3.ZeroExt(32, n) * 2)
    mag = ex.new_obj(st, 'samples', size, 'param', 1)
    ex.blind.add(mag.id)
    ex.blind_bytes = True
    st.inexact = True
    o, soff = state_obj(ex, st)
    ctx = ex.new_obj(st, 'context', 8, 'param', 8)
    OUT = FnPtr('user__report')
    crcok, errorbit, corrected = (Q.constant(ex, 'mm__' + f) for f in ('crcok', 'errorbit', 'phase_corrected'))
    total = Q.constant(ex, 'mm__sizeof')
    check_crc = fld(ex, st, o, soff['check_crc'])
    st.ghost.update(valid=0)
    anything = BaseArr(ex.fresh_arr('report', 1), 1)

    def decode(ex, s, a, inst):
        ok = isinstance(a[0], Ptr) and a[0].obj is o and a[0].off == 0
        ex.check(s, ok, 'a message is decoded with the decoder state it was given', 'pre', tags=DTAG)
        ex.bound(s, a[2], 14, 'message', inst)
        ex.bound(s, a[1], total, 'report', inst)
        if not (isinstance(a[1], Ptr) and a[1].obj is not None):
            return None
        # every field is written (C17); which value the others get does not matter to a detector
        at = a[1].off
        if at == 0 and a[1].obj.size == total:
            s.mem[a[1].obj.id] = anything
        else:
            s.mem[a[1].obj.id] = Region(at, total, lambda ex_, s_, rel, k: ex.open_value(s_, 8 * k), s.mem[a[1].obj.id])
        out = []
        for ok, bit in ((0, None), (1, mask(32)), (1, None)):
            t = s.fork()
            ex.wr(t, a[1].obj, add(at, crcok, 64), 4, ok)
            ex.wr(t, a[1].obj, add(at, errorbit, 64), 4, ex.open_value(t, 32) if bit is None else bit)
            out.append((t, None))
        return Multi(out)

    def report(ex, s, a, inst):
        ex.check(s, isinstance(a[0], Ptr) and a[0].obj is o and a[0].off == 0, 'a report carries the decoder it came from', 'pre', tags=DTAG)
        ex.check(s, isinstance(a[2], Ptr) and a[2].obj is ctx and a[2].off == 0, 'a report carries the context of the caller', 'pre', tags=DTAG)
        ex.bound(s, a[1], total, 'report', inst)
        v = bv(ex.rd(s, s.mem[a[1].obj.id], add(a[1].off, crcok, 64), 4), 32)
        if fn == 'mode_s_detect':
            ex.check(s, nz(z3.Or(v != 0, check_crc == 0)), 'only valid messages are reported, unless the checksum is not to be checked', 'pre', tags=DTAG)
        else:
            ex.check(s, nz(v != 0), 'only valid messages are reported', 'pre', tags=DTAG)
        s.ghost['valid'] = norm(bv(s.ghost['valid'], 64) + z3.If(v != 0, BV(1, 64), BV(0, 64)))
        return None
    ex.contracts.update({'mode_s_decode': decode, 'user__report': report})

    def outer(st0):
        return len(st0.frames) == 1 and not st0.idx

    def counters(loop):
        return [i for i in loop.header.insts if i.op == 'phi' and i.ty.k == 'int']

    # while the samples are worked on, only those of which a copy was made last change
    kept = {'copy': None, 'frame': None}

    def copied(ex, s, o_, off, nb, how):
        if o_ is mag and (not isinstance(nb, int) or nb >= 16):
            kept['copy'] = (off, nb)

    def changed(ex, s, o_, off, nb, v, how):
        if o_ is mag and kept['frame'] is not None:
            a, b = (bv(x, 64) for x in kept['frame'])
            off, nb = bv(off, 64), bv(nb, 64)
            ex.check(s, nz(z3.And(z3.UGE(off, a), z3.ULE(off + nb, a + b))), 'a sample is changed only while a copy of it is kept', 'frame', tags=DTAG)
    ex.hooks_load.append(copied)
    ex.hooks_store.append(changed)

    def inv(ex, s, fr, loop, phase, st0):
        if not outer(st0):
            if phase == 'assume' and s.mem[mag.id] is not st0.mem[mag.id] and kept['copy'] is not None:
                kept['frame'] = kept['copy']
                s.mem[mag.id] = Region(kept['frame'][0], kept['frame'][1], lambda ex_, s_, rel, k_: ex_.open_value(s_, 8 * k_), st0.mem[mag.id])
            return []
        if phase == 'assume':
            # between two positions the samples are those of the caller
            s.mem[mag.id] = st.mem[mag.id]
            return []
        q = ex.fresh(s, 'q', 64)
        s.assume(z3.ULT(q, bv(size, 64) - 1))
        s.assume(z3.Extract(0, 0, q) == 0)
        return [nz(bv(ex.rd(s, s.mem[mag.id], q, 2), 16) == bv(ex.rd(st, st.mem[mag.id], q, 2), 16))]

    def cands(ex, st0, sp, loop):
        out = []
        # a counter stays below what it is compared with (a constant, or the number of samples)
        limits = sorted({v for b in loop.blocks for i in b.insts if i.op == 'icmp' for v in [getattr(i.ops[1], 'val', None)] if isinstance(v, int) and 1 <= v <= 1 << 12})
        for p in counters(loop):
            if p.ty.n == 32:
                if outer(st0):
                    out.append(lambda s, p=p: nz(z3.ULE(bv(s.frames[-1].env[p.id], 32), n)))
                for c in (limits if not outer(st0) else [1]):
                    out.append(lambda s, p=p, c=c: nz(z3.ULE(bv(s.frames[-1].env[p.id], 32), BV(c, 32))))
        # ... or a value the enclosing code has worked out
        mine = {i.id: i for b in loop.blocks for i in b.insts if getattr(i, 'id', None) is not None}

        def outside(x):
            if isinstance(getattr(x, 'val', None), int):
                return x.val
            i = mine.get(getattr(x, 'id', None))
            if i is None:
                return st0.frames[-1].env.get(getattr(x, 'id', None))
            if i.op in ('shl', 'mul', 'add') and i.ty.k == 'int':
                a, b = outside(i.ops[0]), outside(i.ops[1])
                if a is None or b is None or isinstance(a, Ptr) or isinstance(b, Ptr):
                    return None
                a, b = bv(a, i.ty.n), bv(b, i.ty.n)
                return norm(a << b if i.op == 'shl' else a * b if i.op == 'mul' else a + b)
            return None
        for b in loop.blocks:
            for i in b.insts:
                lim = i.ops[1] if i.op == 'icmp' else None
                v = outside(lim) if lim is not None and not isinstance(getattr(lim, 'val', None), int) else None
                if v is None or isinstance(v, (Ptr, bool)):
                    continue
                for p in counters(loop):
                    if p.ty.n == 32 and lim.ty.n == 32:
                        out.append(lambda s, p=p, v=v: nz(z3.ULE(bv(s.frames[-1].env[p.id], 32), bv(v, 32))))
        # a pointer into the samples moves at most 20 samples a byte
        for q in loop.header.insts:
            v = st0.frames[-1].env.get(q.id) if q.op == 'phi' and q.ty.k == 'ptr' else None
            if isinstance(v, Ptr) and v.obj is mag:
                for p in counters(loop):
                    if p.ty.n == 32:
                        out.append(lambda s, p=p, q=q, v=v: nz(z3.And(z3.UGE(bv(s.frames[-1].env[q.id].off, 64), bv(v.off, 64)),
                                                                       z3.ULE(bv(s.frames[-1].env[q.id].off, 64), bv(v.off, 64) + 40 * z3.ZeroExt(32, bv(s.frames[-1].env[p.id], 32))))))
        return out
    backs = []

    def back(ex, s, loop, sp):
        if not ex.quiet and len(s.frames) == 1 and len(sp.idx) == 1:
            backs.append((loop, sp, s))
    ex.loop_inv, ex.loop_cands, ex.on_backedge = inv, cands, back
    if fn == 'mode_s_detect':
        ex.loop_mode = lambda f, loop: 'cut'
    else:
        # five phases of at most fourteen bytes: the loops inside a position are run through
        ex.loop_mode = lambda f, loop: 'unroll' if f.name == fn and any(loop.header is not l.header and loop.header in l.blocks for l in ex.loops_of(f).values()) else None
    k = 0
    for s in ex.call_function(st, fn, [Ptr(o, 0), Ptr(mag, 0), n, OUT, Ptr(ctx, 0)]):
        if not usable(ex, s, 'the detector'):
            continue
        k += 1
        q = ex.fresh(s, 'q', 64)
        s.assume(z3.ULT(q, bv(size, 64) - 1))
        s.assume(z3.Extract(0, 0, q) == 0)
        ex.check(s, nz(bv(ex.rd(s, s.mem[mag.id], q, 2), 16) == bv(ex.rd(st, st.mem[mag.id], q, 2), 16)), 'the samples are left as they were', 'post', tags=DTAG)
    ex.check(State(), k > 0, 'the detector returns', 'post', tags=DTAG)
    # progress: a counter of the loop grows, or stays while a flag goes up once; a position that gave a valid message is left behind
    for loop in {id(l): l for l, _, _ in backs}.values():
        mine = [(sp, s) for l, sp, s in backs if l is loop]
        ps = [p for p in counters(loop) if p.ty.n in (32, 64)]
        flags = [None] + [p for p in counters(loop)]

        def rises(sp, s, p):
            a, b = bv(sp.frames[-1].env[p.id], p.ty.n), bv(s.frames[-1].env[p.id], p.ty.n)
            return z3.UGT(b, a), b == a

        def step(sp, s, p, f):
            up, eq = rises(sp, s, p)
            if f is None:
                return nz(up)
            a, b = sp.frames[-1].env[f.id], s.frames[-1].env[f.id]
            one = lambda x: tob(x, f.ty.n)
            return nz(z3.Or(up, z3.And(eq, z3.Not(one(a)), one(b))))
        best = None
        for p in ps:
            for f in flags:
                if f is not p and all(ex.prove(s, step(sp, s, p, f)) for sp, s in mine):
                    best = (p, f)
                    break
            if best:
                break
        ex.check(mine[0][1], best is not None, 'the detector gets on: the position grows, or one retry is used up', 'variant', tags=DTAG)
        if best is None:
            continue
        for sp, s in mine:
            ex.check(s, step(sp, s, *best), 'every step gets on', 'variant', tags=DTAG)
            d = bv(s.ghost['valid'], 64) - bv(sp.ghost['valid'], 64)
            up, _ = rises(sp, s, best[0])
            ex.check(s, nz(z3.Or(d == 0, z3.And(d == 1, up))), 'a position gives at most one valid message', 'variant', tags=DTAG)


def tob(x, w):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    return x if z3.is_bool(x) else x != 0
