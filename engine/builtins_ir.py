"""Semantics of LLVM intrinsics and of the C/C++ runtime functions the code calls (assumed contracts)."""
import z3
from terms import *


def tables():
    import symex as S

    def lifetime(ex, st, args, inst):
        p = args[-1]
        if ex.blind and getattr(p, 'obj', None) is not None and p.off == 0 and p.obj.kind == 'stack':
            # nothing is left of what an object held before or after its life
            c = ex.__dict__.setdefault('_lifeless', {})
            if p.obj.id not in c:
                from symex import BaseUndef
                c[p.obj.id] = BaseUndef(p.obj.arr)
            st.mem[p.obj.id] = c[p.obj.id]
        return None

    def nop(ex, st, a, i):
        return None

    def memcpy(ex, st, a, i):
        if isinstance(a[2], int) and a[2] == 0:
            return a[0] if i.ty.k == 'ptr' else None
        n = a[2]
        if not isinstance(n, int) and (a[0].obj is None or a[1].obj is None):
            z = eq(n, 0)
            if ex.feasible(st, z):
                if not ex.feasible(st, bnot(z)):
                    return a[0] if i.ty.k == 'ptr' else None
                s2 = st.fork()
                s2.assume(z)
                st.assume(nbool(z3.Not(z)))
                ex.memcpy(st, a[0], a[1], n, ex.loc(i))
                return S.Multi([(st, a[0] if i.ty.k == 'ptr' else None), (s2, a[0] if i.ty.k == 'ptr' else None)])
        ex.memcpy(st, a[0], a[1], n, ex.loc(i))
        return a[0] if i.ty.k == 'ptr' else None

    def memset(ex, st, a, i):
        b = a[1]
        if i.ty.k == 'ptr' and not isinstance(b, int):
            b = norm(z3.Extract(7, 0, b))
        elif isinstance(b, int):
            b &= 255
        ex.memset(st, a[0], b, a[2], ex.loc(i))
        return a[0] if i.ty.k == 'ptr' else None

    def minmax(pred):
        def h(ex, st, a, i):
            w = i.ty.n
            return norm(bv(ite(cmp(pred, a[0], a[1], w), a[0], a[1], w), w))
        return h

    def iabs(ex, st, a, i):
        w = i.ty.n
        return norm(bv(ite(cmp('slt', a[0], 0, w), sub(0, a[0], w), a[0], w), w))

    def assume(ex, st, a, i):
        return None

    def expect(ex, st, a, i):
        return a[0]

    def ctlz(ex, st, a, i):
        w = i.ty.n
        x = a[0]
        if isc(x):
            return w - x.bit_length()
        r = BV(w, w)
        for k in range(w):
            r = z3.If(z3.Extract(k, k, x) == BV(1, 1), BV(w - 1 - k, w), r)
        if isc(a[1]) and a[1] & 1:
            # poison for zero: an arbitrary value
            r = z3.If(x == 0, ex.fresh(st, 'clz_of_zero', w), r)
        return norm(r)

    def cttz(ex, st, a, i):
        w = i.ty.n
        x = a[0]
        if isc(x):
            return w if x == 0 else (x & -x).bit_length() - 1
        r = BV(w, w)
        for k in range(w - 1, -1, -1):
            r = z3.If(z3.Extract(k, k, x) == BV(1, 1), BV(k, w), r)
        return norm(r)

    def ctpop(ex, st, a, i):
        w = i.ty.n
        x = a[0]
        if isc(x):
            return bin(x).count('1')
        r = BV(0, w)
        for k in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
        return norm(r)

    def bswap(ex, st, a, i):
        w = i.ty.n
        x = a[0]
        if isc(x):
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        return norm(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)]))

    def fsh(left):
        def h(ex, st, a, i):
            w = i.ty.n
            if not isc(a[2]):
                raise S.Unsupported('funnel shift by symbolic amount')
            k = a[2] % w
            x = z3.Concat(bv(a[0], w), bv(a[1], w))
            if left:
                return norm(z3.Extract(2 * w - 1 - k, w - k, x))
            return norm(z3.Extract(w - 1 + k, k, x))
        return h

    def ovf(op, signed):
        def h(ex, st, a, i):
            w = i.ty.els[0].n
            x, y = bv(a[0], w), bv(a[1], w)
            if op == 'add':
                r = x + y
                o = z3.Not(z3.BVAddNoOverflow(x, y, signed)) if not signed else z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
            elif op == 'sub':
                r = x - y
                o = z3.ULT(x, y) if not signed else z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
            else:
                r = x * y
                o = z3.Not(z3.BVMulNoOverflow(x, y, signed)) if not signed else z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
            o = nbool(o)
            return [norm(r), int(o) if isinstance(o, bool) else o]
        return h

    def usubsat(ex, st, a, i):
        w = i.ty.n
        return norm(bv(ite(cmp('ult', a[0], a[1], w), 0, sub(a[0], a[1], w), w), w))

    def fp1(name):
        def h(ex, st, a, i):
            ty = i.ty
            if ty.k == 'vector':
                return [one(ex, st, [x], ty.el) for x in a[0]]
            return one(ex, st, a, ty)

        def one(ex, st, a, ty):
            if ty.k not in ex.FSORT:
                raise S.Unsupported('fp type')
            w = ty.size * 8
            if name == 'fabs':
                x = a[0]
                if isc(x):
                    return x & (mask(w) >> 1)
                return norm(x & BV(mask(w) >> 1, w))
            if name == 'sqrt' and (ex.fp == 'fp' or isc(a[0])):
                return ex.fpb(z3.fpSqrt(z3.RNE(), ex.fpv(a[0], ty)))
            return ex.uf('%s_%s' % (name, ty.k), a[:1], [w], w)
        return h

    def fpn(name, n):
        def h(ex, st, a, i):
            ty = i.ty
            w = ty.size * 8
            if ex.fp == 'fp' and name in ('minnum', 'maxnum'):
                f = z3.fpMin if name == 'minnum' else z3.fpMax
                return ex.fpb(f(ex.fpv(a[0], ty), ex.fpv(a[1], ty)))
            ws = [w] * n
            return ex.uf('%s_%s' % (name, ty.k), a[:n], ws, w)
        return h

    def fmuladd(ex, st, a, i):
        t = i.ty
        if t.k == 'vector':
            return [ex.fop(st, 'fadd', [ex.fop(st, 'fmul', [x, y], t.el), z], t.el) for x, y, z in zip(*a[:3])]
        return ex.fop(st, 'fadd', [ex.fop(st, 'fmul', [a[0], a[1]], t), a[2]], t)

    def trap(ex, st, a, i):
        ex.fail(st, 'trap reached', 'ub', ex.loc(i))
        st.status = 'ub'

    def objectsize(ex, st, a, i):
        return mask(64)

    def is_constant(ex, st, a, i):
        return 0

    intr = {
        'llvm.memcpy': memcpy, 'llvm.memmove': memcpy, 'llvm.memset': memset,
        'llvm.lifetime': lifetime, 'llvm.dbg': nop, 'llvm.assume': assume, 'llvm.expect': expect,
        'llvm.experimental.noalias': nop, 'llvm.invariant': nop, 'llvm.prefetch': nop, 'llvm.stacksave': lambda ex, st, a, i: S.NULL,
        'llvm.stackrestore': nop, 'llvm.launder': expect, 'llvm.strip': expect,
        'llvm.umin': minmax('ult'), 'llvm.umax': minmax('ugt'), 'llvm.smin': minmax('slt'), 'llvm.smax': minmax('sgt'),
        'llvm.abs': iabs, 'llvm.ctlz': ctlz, 'llvm.cttz': cttz, 'llvm.ctpop': ctpop, 'llvm.bswap': bswap,
        'llvm.fshl': fsh(True), 'llvm.fshr': fsh(False),
        'llvm.uadd.with.overflow': ovf('add', False), 'llvm.sadd.with.overflow': ovf('add', True),
        'llvm.usub.with.overflow': ovf('sub', False), 'llvm.ssub.with.overflow': ovf('sub', True),
        'llvm.umul.with.overflow': ovf('mul', False), 'llvm.smul.with.overflow': ovf('mul', True),
        'llvm.usub.sat': usubsat, 'llvm.fmuladd': fmuladd, 'llvm.fma': fpn('fma', 3),
        'llvm.trap': trap, 'llvm.ubsantrap': trap, 'llvm.objectsize': objectsize, 'llvm.is.constant': is_constant,
        'llvm.eh.typeid.for': lambda ex, st, a, i: ex.fresh(st, 'typeid', 32),
        'llvm.x86.sse2.pause': nop,
        'llvm.copysign': fpn('copysign', 2), 'llvm.minnum': fpn('minnum', 2), 'llvm.maxnum': fpn('maxnum', 2),
        'llvm.pow.': fpn('pow', 2),
    }
    for n in ('fabs', 'sqrt', 'sin', 'cos', 'exp', 'log', 'log10', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'exp2', 'log2'):
        intr['llvm.%s.' % n] = fp1(n)

    # ---- runtime ----
    def op_new(ex, st, a, i):
        n = a[0]
        st.ghost['allocs'] = st.ghost.get('allocs', 0) + 1
        o = ex.new_obj(st, 'heap%d' % next(ex.n), n, 'heap', init='undef')
        st.ghost['heap'] = st.ghost.get('heap', ()) + (o,)
        return S.Ptr(o, 0)

    def op_delete(ex, st, a, i):
        p = a[0]
        if p.obj is None:
            if isinstance(p.off, int) and p.off == 0:
                return None
            ex.fail(st, 'free of a wild pointer', 'memory', ex.loc(i))
            return None
        ex.check(st, p.obj.kind == 'heap' and p.obj.id not in st.dead, 'freed block is live heap memory', 'memory', ex.loc(i))
        ex.check(st, eq(p.off, 0), 'freed pointer is the start of its block', 'memory', ex.loc(i))
        st.dead = st.dead | {p.obj.id}
        return None

    def assert_fail(ex, st, a, i):
        msg = ''
        try:
            p = a[0]
            msg = cstr(ex, st, p)
        except Exception:
            pass
        pol = getattr(ex, 'assert_policy', None)
        if pol and pol(ex, st, msg, i):
            st.status = 'abort'
            return None
        ex.fail(st, 'assertion holds: ' + msg[:90], 'assert', ex.loc(i))
        st.status = 'abort'

    def abort(ex, st, a, i):
        ex.fail(st, 'abort/terminate not reached', 'assert', ex.loc(i))
        st.status = 'abort'

    def cxa_alloc(ex, st, a, i):
        o = ex.new_obj(st, 'exc', 1 << 20, 'heap', init='undef')
        return S.Ptr(o, 0)

    def cxa_throw(ex, st, a, i):
        if len(a) > 1 and isinstance(a[1], S.Ptr) and a[1].obj is not None:
            st.ghost['thrown'] = a[1].obj.name
        else:
            st.ghost['thrown'] = '?'
        return S.Throw()

    def throw_fn(nm):
        def h(ex, st, a, i):
            st.ghost['thrown'] = nm
            return S.Throw()
        return h

    def cxa_guard(ex, st, a, i):
        # function-local static: already initialised (value havocked by global_init) or not
        return 1

    def strlen(ex, st, a, i):
        s = cstr(ex, st, a[0])
        if s is None:
            raise S.Unsupported('strlen of symbolic string')
        return len(s)

    B = {
        '_Znwm': op_new, '_Znam': op_new, 'malloc': op_new, '_ZdlPv': op_delete, '_ZdaPv': op_delete,
        '_ZdlPvm': op_delete, '_ZdaPvm': op_delete, 'free': op_delete,
        '__assert_fail': assert_fail, 'abort': abort, '_ZSt9terminatev': abort, '__clang_call_terminate': abort,
        '__cxa_allocate_exception': cxa_alloc, '__cxa_throw': cxa_throw, '__cxa_free_exception': nop,
        '__cxa_begin_catch': lambda ex, st, a, i: a[0], '__cxa_end_catch': nop, '__cxa_rethrow': lambda ex, st, a, i: S.Throw(),
        '__cxa_guard_acquire': cxa_guard, '__cxa_guard_release': nop, '__cxa_guard_abort': nop, '__cxa_atexit': lambda ex, st, a, i: 0,
        'memcpy': memcpy, 'memmove': memcpy, 'memset': memset,
        'strlen': strlen,
        '_ZNSt13runtime_errorC1EPKc': nop, '_ZNSt13runtime_errorD1Ev': nop, '_ZNSt16invalid_argumentC1EPKc': nop,
        '_ZNSt16invalid_argumentD1Ev': nop, '_ZNSt9bad_allocD1Ev': nop, '_ZNSt9exceptionD2Ev': nop,
        '_ZNSt12out_of_rangeC1EPKc': nop, '_ZNSt11logic_errorC1EPKc': nop,
        '_ZSt17__throw_bad_allocv': throw_fn('bad_alloc'), '_ZSt28__throw_bad_array_new_lengthv': throw_fn('bad_array_new_length'),
        '_ZSt20__throw_length_errorPKc': throw_fn('length_error'), '_ZSt19__throw_logic_errorPKc': throw_fn('logic_error'),
        '_ZSt24__throw_out_of_range_fmtPKcz': throw_fn('out_of_range'), '_ZSt20__throw_system_errori': throw_fn('system_error'),
        '_ZSt25__throw_bad_function_callv': throw_fn('bad_function_call'),
    }

    def pure(name, args, res):
        W = {'f': 32, 'd': 64, 'i': 32, 'l': 64}
        canon = name

        def h(ex, st, a, i):
            return ex.uf(canon, a, [W[c] for c in args], W[res])
        return h
    for n in ('sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log', 'log10', 'floor', 'ceil', 'round', 'sinh', 'cosh', 'cbrt', 'log2', 'exp2', 'trunc', 'rint'):
        B[n] = pure('%s_double' % n, 'd', 'd')
        B[n + 'f'] = pure('%s_float' % n, 'f', 'f')
    for n in ('atan2', 'pow', 'fmod', 'hypot', 'fmax', 'fmin', 'remainder', 'copysign'):
        B[n] = pure('%s_double' % n, 'dd', 'd')
        B[n + 'f'] = pure('%s_float' % n, 'ff', 'f')
    for n in ('sqrt', 'fabs'):
        B[n] = intr['llvm.%s.' % n]
        B[n + 'f'] = intr['llvm.%s.' % n]
    B['lround'] = pure('lround', 'd', 'l')
    B['lroundf'] = pure('lroundf', 'f', 'l')
    B['ldexp'] = pure('ldexp', 'di', 'd')
    return B, intr


def cstr(ex, st, p, limit=4096):
    """concrete C string at p, or None"""
    if p.obj is None or not isinstance(p.off, int):
        return None
    out = []
    off = p.off
    while len(out) < limit:
        b = ex.rd(st, st.mem[p.obj.id], off, 1)
        if not isinstance(b, int):
            return None
        if b == 0:
            return bytes(out).decode('latin1')
        out.append(b)
        off += 1
    return None
