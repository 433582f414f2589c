"""Contracts of the small utilities: bit helpers (C10), results and errors (C09), bounded strings (C08)"""
import z3
from terms import *
from symex import *
import queue_spec as Q

X64 = lambda n='x': z3.BitVec(n, 64)


def b1(v):
    return tobool(v)


def nothrow(ex, st, what):
    ex.check(st, st.status != 'throw', what + ' does not throw', 'post')
    return st.status != 'throw'


def pow2(t):
    """t is a power of two, by enumeration of all 64 of them"""
    return z3.Or(*[t == BV(1 << k, 64) for k in range(64)])


def verify_pow2(ex, fn):
    ex.use_lia = False
    st = State()
    x = X64()
    if fn == 'ceil2p2':
        st.assume(z3.ULE(x, BV(1 << 63, 64)))
    for s in ex.call_function(st, 'u__' + fn, [x]):
        if not nothrow(ex, s, fn):
            continue
        r = s.ret
        if fn == 'is_power_of_2':
            ex.check(s, nbool(zb(b1(r)) == pow2(x)), 'true exactly for powers of two', 'post')
        elif fn == 'floor2p2':
            r = bv(r, 64)
            ex.check(s, nbool(z3.Implies(x == 0, r == 0)), 'zero is rounded down to zero', 'post')
            ex.check(s, nbool(z3.Implies(x != 0, pow2(r))), 'the result is a power of two', 'post')
            ex.check(s, nbool(z3.Implies(x != 0, z3.And(z3.ULE(r, x), z3.ULT(x - r, r)))), 'the result is the greatest power of two not above the argument', 'post')
        else:
            r = bv(r, 64)
            ex.check(s, pow2(r), 'the result is a power of two', 'post')
            ex.check(s, z3.UGE(r, x), 'the result is not below the argument', 'post')
            ex.check(s, nbool(z3.Or(r == 1, z3.ULT(z3.LShR(r, 1), x))), 'no smaller power of two would do', 'post')


# ---------------------------------------------------------------- errors
FATAL = [7, 8, 9, 10, 11]
SPECIFIC = [2, 3, 4, 5, 6, 8, 9, 10, 11]     # indices into the harness table: all but OK, Unknown and the group marker


def errs(ex):
    out = []
    for k in range(12):
        s = State()
        out.append(ex.call_function(s, 'u__err', [k])[0].ret)
    return out


def verify_fatal(ex):
    vals = errs(ex)
    st = State()
    ex.check(st, len(set(vals)) == 12, 'all errors are different values', 'post')
    e = z3.BitVec('error', 32)
    st.assume(z3.Or(*[e == BV(v, 32) for v in vals]))
    for s in ex.call_function(st, 'u__is_fatal', [e]):
        if nothrow(ex, s, 'is_fatal'):
            ex.check(s, nbool(zb(b1(s.ret)) == z3.Or(*[e == BV(vals[k], 32) for k in FATAL])), 'exactly the fatal group is fatal', 'post')


def verify_text(ex, fn):
    from builtins_ir import cstr
    vals = errs(ex)
    seen = {}
    for k in range(12):
        st = State()
        for s in ex.call_function(st, 'u__' + fn, [vals[k]]):
            if not nothrow(ex, s, fn):
                continue
            t = cstr(ex, s, s.ret) if isinstance(s.ret, Ptr) and s.ret.obj is not None else None
            ex.check(s, bool(t), 'error %d has a non-empty description' % k, 'post')
            if k in SPECIFIC:
                ex.check(s, t not in seen.values(), 'error %d has a description of its own' % k, 'post')
            seen[k] = t


# ---------------------------------------------------------------- results
def mk_result(ex, tag, kind, st):
    """a result in memory holding an arbitrary value / error; returns (state, obj, payload cells)"""
    n = Q.constant(ex, tag + '__sizeof')
    vs = Q.constant(ex, tag + '__vsizeof')
    r = ex.new_obj(st, 'result', n)
    if kind == 'value':
        p = ex.new_obj(st, 'value', vs)
        if tag == 'rb':
            ex.wr(st, p, 0, 1, z3.ZeroExt(7, z3.BitVec('bit', 1)))
        f = tag + '__of_value'
    else:
        p = ex.new_obj(st, 'errval', 4)
        e = z3.BitVec('error', 32)
        st.assume(z3.ULT(e, BV(12, 32)))
        ex.wr(st, p, 0, 4, e)
        f = tag + '__of_error'
    payload = [ex.rd(st, st.mem[p.id], i, 1) for i in range(p.size)]
    if tag == 're' and kind == 'value':
        payload = []
    return r, p, f, payload


def observe(ex, s, tag, r, kind, payload, what):
    for q, want in (('is_ok', kind == 'value'), ('is_err', kind == 'error')):
        for s2 in ex.call_function(s.fork(), '%s__%s' % (tag, q), [Ptr(r, 0)]):
            if nothrow(ex, s2, q):
                ex.check(s2, nbool(zb(b1(s2.ret)) == z3.BoolVal(want)), '%s: %s() is %s' % (what, q, want), 'post')
    good, bad = ('unwrap', 'unwrap_err') if kind == 'value' else ('unwrap_err', 'unwrap')
    for s2 in ex.call_function(s.fork(), '%s__%s' % (tag, good), [Ptr(r, 0)]):
        if not nothrow(ex, s2, good):
            continue
        p = s2.ret
        ok = isinstance(p, Ptr) and p.obj is r
        ex.check(s2, ok, '%s: %s() gives the stored object' % (what, good), 'post')
        if ok:
            for i, c in enumerate(payload):
                b = ex.rd(s2, s2.mem[r.id], add(p.off, i), 1)
                ex.check(s2, eq(b, c, 8), '%s: %s() gives back exactly what was stored (byte %d)' % (what, good, i), 'post')
    for s2 in ex.call_function(s.fork(), '%s__%s' % (tag, bad), [Ptr(r, 0)]):
        ex.check(s2, s2.status == 'throw', '%s: %s() on the other alternative is refused' % (what, bad), 'post')


def verify_result(ex, tag, kind, op):
    st = State()
    r, p, f, payload = mk_result(ex, tag, kind, st)
    for s in ex.call_function(st, f, [Ptr(r, 0), Ptr(p, 0)]):
        if not nothrow(ex, s, 'construction'):
            continue
        if op == 'construct':
            observe(ex, s, tag, r, kind, payload, 'constructed')
            continue
        if op in ('copy', 'move'):
            d = ex.new_obj(s, 'dest', r.size)
            todo = [s]
        else:
            # the target already holds either alternative
            todo = []
            for k2 in ('value', 'error'):
                s1 = s.fork()
                d, p2, f2, _ = mk_result(ex, tag, k2, s1)
                d.name = 'dest'
                for s2 in ex.call_function(s1, f2, [Ptr(d, 0), Ptr(p2, 0)]):
                    if nothrow(ex, s2, 'construction'):
                        s2.ghost['d'] = d
                        todo.append(s2)
        for s1 in todo:
            dd = s1.ghost.get('d', d)
            for s2 in ex.call_function(s1, '%s__%s' % (tag, op), [Ptr(dd, 0), Ptr(r, 0)]):
                if nothrow(ex, s2, op):
                    observe(ex, s2, tag, dd, kind, payload, op)
                    if op in ('copy', 'assign'):
                        observe(ex, s2, tag, r, kind, payload, op + ' leaves the source')


# ---------------------------------------------------------------- bounded strings
STRN = {'s64': 64, 's8': 8, 's2': 2, 's1': 1}


class SM:
    pass


def str_setup(ex, tag):
    M = SM()
    M.N = STRN[tag]
    M.size = Q.constant(ex, tag + '__sizeof')
    M.od = Q.offset(ex, tag + '__at_data', None)
    M.ol = Q.offset(ex, tag + '__at_len', None)
    M.texts = {}
    ex.strM = M

    def strlen(ex_, st, a, i):
        """strlen: requires a terminated text; the length is the registered one or the object's own length field"""
        p = a[0]
        if p.obj is None:
            ex_.fail(st, 'strlen of a null pointer', 'memory', ex_.loc(i))
            return 0
        if p.obj.id in M.texts:
            n, off0 = M.texts[p.obj.id], 0
        elif p.obj.size == M.size:
            n, off0 = ex_.rd(st, st.mem[p.obj.id], M.ol, 8), M.od
        else:
            from builtins_ir import cstr
            t = cstr(ex_, st, p)
            if t is None:
                raise Unsupported('strlen of an unknown text')
            return len(t)
        d = sub(p.off, off0)
        m = sub(n, d)
        ex_.check(st, ule(d, n), 'strlen: starts inside the text', 'pre')
        ex_.check(st, eq(ex_.load(st, Ptr(p.obj, add(p.off, m)), 1), 0, 8), 'strlen: the text is terminated at its length', 'pre')
        k = ex_.fresh(st, 'k', 64)
        s2 = st.fork()
        s2.assume(z3.ULT(k, bv(m, 64)))
        nz(ex_, s2, M, k)
        ex_.check(s2, bnot(eq(ex_.rd(s2, s2.mem[p.obj.id], add(p.off, k), 1), 0, 8)), 'strlen: no earlier terminator', 'pre')
        return m
    ex.builtins['strlen'] = strlen
    return M


def nz(ex, st, M, k):
    """instantiate "no terminator before the length" of every registered text (and of the initial strings) at k and at
    its shift by each length"""
    terms = [k]
    for (lo, n, fn) in M.facts:
        terms.append(sub(k, n))
    for (lo, n, fn) in M.facts:
        for t in terms:
            st.assume(z3.Implies(z3.ULT(bv(t, 64), bv(n, 64)), zb(bnot(eq(fn(t), 0, 8)))))


def mk_text(ex, st, M, name):
    L = z3.BitVec('len_' + name, 64)
    st.assume(z3.ULE(L, BV(1 << 40, 64)))
    o = ex.new_obj(st, name, add(L, 1))
    node = st.mem[o.id]
    get = lambda i: ex.rd(st, node, i, 1)
    st.assume(zb(eq(get(L), 0, 8)))
    M.texts[o.id] = L
    M.facts.append((0, L, get))
    nz(ex, st, M, 0)
    return o, L, get


def mk_str(ex, st, M, name):
    """an arbitrary string satisfying the class invariant"""
    o = ex.new_obj(st, name, M.size)
    L = z3.BitVec('len_' + name, 64)
    st.assume(z3.ULT(L, BV(M.N, 64)))
    ex.wr(st, o, M.ol, 8, L)
    node = st.mem[o.id]
    get = lambda i: ex.rd(st, node, add(i, M.od), 1)
    st.assume(zb(eq(get(L), 0, 8)))
    M.facts.append((0, L, get))
    nz(ex, st, M, 0)
    return o, L, get


def str_is(ex, s, M, o, want_len, want_at, what):
    """o is a valid string with the given text"""
    ln = ex.rd(s, s.mem[o.id], M.ol, 8)
    ex.check(s, eq(ln, want_len), what + ': length is the exact text truncated to the limit', 'post')
    ex.check(s, ult(ln, M.N), what + ': length stays below the limit', 'post')
    ex.check(s, eq(ex.rd(s, s.mem[o.id], add(M.od, ln), 1), 0, 8), what + ': terminated', 'post')
    i = ex.fresh(s, 'i', 64)
    s2 = s.fork()
    s2.assume(z3.ULT(i, bv(want_len, 64)))
    ex.check(s2, eq(ex.rd(s2, s2.mem[o.id], add(M.od, i), 1), want_at(i), 8), what + ': characters are the text\'s', 'post')
    s2.assume(z3.ULT(i, bv(ln, 64)))
    nz(ex, s2, M, i)
    ex.check(s2, bnot(eq(ex.rd(s2, s2.mem[o.id], add(M.od, i), 1), 0, 8)), what + ': no terminator before the length', 'post')


def unchanged(ex, s, s0, o, n, what):
    i = ex.fresh(s, 'i', 64)
    s2 = s.fork()
    s2.assume(z3.ULT(i, bv(n, 64)))
    ex.check(s2, eq(ex.rd(s2, s2.mem[o.id], i, 1), ex.rd(s0, s0.mem[o.id], i, 1), 8), what + ' is not modified', 'post')


def verify_str(ex, tag, op):
    M = str_setup(ex, tag)
    M.facts = []
    st = State()
    lim = M.N - 1
    call = lambda s, *a: [x for x in ex.call_function(s, '%s__%s' % (tag, op), list(a)) if nothrow(ex, x, op)]
    if op == 'ctor':
        d = ex.new_obj(st, 'dest', M.size)
        for s in call(st, Ptr(d, 0)):
            str_is(ex, s, M, d, 0, lambda i: 0, op)
    elif op in ('of_cstr', 'assign_cstr'):
        s0 = st.fork()
        d = mk_str(ex, s0, M, 'dest')[0] if op == 'assign_cstr' else ex.new_obj(s0, 'dest', M.size)
        M.facts = []
        for s in call(s0.fork(), Ptr(d, 0), Ptr(None, 0)):
            str_is(ex, s, M, d, 0, lambda i: 0, op + '(null)')
        t, L, get = mk_text(ex, s0, M, 'text')
        for s in call(s0.fork(), Ptr(d, 0), Ptr(t, 0)):
            str_is(ex, s, M, d, minu(L, lim), get, op)
            unchanged(ex, s, s0, t, add(L, 1), 'the source text')
    elif op == 'of_string':
        s0 = st
        d = ex.new_obj(s0, 'dest', M.size)
        t, L, get = mk_text(ex, s0, M, 'text')
        so = ex.new_obj(s0, 'stdstring', 32)
        ex.wr(s0, so, 0, 8, Ptr(t, 0))
        ex.wr(s0, so, 8, 8, L)
        for s in call(s0.fork(), Ptr(d, 0), Ptr(so, 0)):
            str_is(ex, s, M, d, minu(L, lim), get, op)
    elif op in ('copy', 'assign'):
        src, L, get = mk_str(ex, st, M, 'source')
        d = ex.new_obj(st, 'dest', M.size) if op == 'copy' else mk_str(ex, st, M, 'dest')[0]
        for s in call(st.fork(), Ptr(d, 0), Ptr(src, 0)):
            str_is(ex, s, M, d, L, get, op)
            unchanged(ex, s, st, src, M.size, 'the source')
        if op == 'assign':
            for s in call(st.fork(), Ptr(src, 0), Ptr(src, 0)):
                str_is(ex, s, M, src, L, get, 'self assignment')
    elif op in ('plus', 'plus_cstr'):
        a, La, ga = mk_str(ex, st, M, 'left')
        d = ex.new_obj(st, 'dest', M.size)
        if op == 'plus':
            b, Lb, gb = mk_str(ex, st, M, 'right')
        else:
            b, Lb, gb = mk_text(ex, st, M, 'right')
        at = lambda i: ite(ult(i, La), ga(i), gb(sub(i, La)), 8)
        for s in call(st.fork(), Ptr(d, 0), Ptr(a, 0), Ptr(b, 0)):
            str_is(ex, s, M, d, minu(add(La, Lb), lim), at, op)
            unchanged(ex, s, st, a, M.size, 'the left operand')
        if op == 'plus':
            for s in call(st.fork(), Ptr(d, 0), Ptr(a, 0), Ptr(a, 0)):
                str_is(ex, s, M, d, minu(add(La, La), lim), lambda i: ite(ult(i, La), ga(i), ga(sub(i, La)), 8), 'adding to itself')
    else:
        a, La, ga = mk_str(ex, st, M, 'this')
        for s in call(st.fork(), Ptr(a, 0)):
            if op == 'length':
                ex.check(s, eq(s.ret, La), 'length() is the text length', 'post')
            elif op == 'empty':
                ex.check(s, nbool(zb(b1(s.ret)) == (La == 0)), 'empty() exactly for the empty text', 'post')
            else:
                ex.check(s, isinstance(s.ret, Ptr) and s.ret.obj is a and s.ret.off == M.od, 'gives the terminated text', 'post')
            unchanged(ex, s, st, a, M.size, 'the string')
