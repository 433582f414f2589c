"""Machine-integer / float term helpers: a value is a Python int (concrete, unsigned) or a z3 term."""
import z3

BV = z3.BitVecVal
_SORT = {}


def bvs(w):
    s = _SORT.get(w)
    if s is None:
        s = _SORT[w] = z3.BitVecSort(w)
    return s


def mask(w):
    return (1 << w) - 1


def isc(v):
    return isinstance(v, int)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def bv(v, w):
    """as a z3 bitvector"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return BV(v, w)
    if z3.is_bool(v):
        return z3.If(v, BV(1, w), BV(0, w))
    return v


def norm(t):
    """simplify; fold to python int if constant"""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def light(t):
    if isinstance(t, int):
        return t
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def tobool(v):
    """i1 value -> python bool or z3 Bool"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1)
    if z3.is_bool(v):
        return v
    return v == BV(1, v.size())


def nbool(b):
    if isinstance(b, bool):
        return b
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return b


def band(*xs):
    out = []
    for x in xs:
        if x is True or (isinstance(x, int) and x):
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def bimp(a, b):
    return bor(bnot(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def ite(c, a, b, w):
    c = c if isinstance(c, bool) else c
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def add(a, b, w=64):
    if isc(a) and isc(b):
        return (a + b) & mask(w)
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return norm(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isc(a) and isc(b):
        return (a - b) & mask(w)
    if isc(b) and b == 0:
        return a
    return norm(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if isc(a) and isc(b):
        return (a * b) & mask(w)
    if isc(b) and b == 1:
        return a
    if isc(a) and a == 1:
        return b
    if (isc(a) and a == 0) or (isc(b) and b == 0):
        return 0
    return norm(bv(a, w) * bv(b, w))


def cmp(pred, a, b, w):
    if isc(a) and isc(b):
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        return {'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred]
    x, y = bv(a, w), bv(b, w)
    r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
         'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
         'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
    return nbool(r)


def ult(a, b, w=64):
    return cmp('ult', a, b, w)


def ule(a, b, w=64):
    return cmp('ule', a, b, w)


def eq(a, b, w=64):
    return cmp('eq', a, b, w)


def minu(a, b, w=64):
    return norm(bv(ite(ule(a, b, w), a, b, w), w))


def linear(t, w=64):
    """t (int | BV term) as (const, {atom_id: (atom, coef)}) modulo 2^w"""
    M = mask(w)
    const = 0
    d = {}

    def go(t, c):
        nonlocal const
        if isinstance(t, int):
            const = (const + c * t) & M
            return
        if z3.is_bv_value(t):
            const = (const + c * t.as_long()) & M
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_BADD:
            for ch in t.children():
                go(ch, c)
            return
        if k == z3.Z3_OP_BSUB:
            ch = t.children()
            go(ch[0], c)
            for x in ch[1:]:
                go(x, -c)
            return
        if k == z3.Z3_OP_BNEG:
            go(t.children()[0], -c)
            return
        if k == z3.Z3_OP_BMUL:
            ch = t.children()
            cs = [x for x in ch if z3.is_bv_value(x)]
            if cs:
                cc = c
                for x in cs:
                    cc *= x.as_long()
                rest = [x for x in ch if not z3.is_bv_value(x)]
                if not rest:
                    const = (const + cc) & M
                    return
                if len(rest) == 1:
                    go(rest[0], cc)
                    return
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                put(r, cc)
                return
        if k == z3.Z3_OP_BSHL:
            ch = t.children()
            if z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
                go(ch[0], c << ch[1].as_long())
                return
        if k == z3.Z3_OP_CONCAT:
            # concat(extract(hi-lo.. of x), 0..0): z3's form of x << n
            ch = t.children()
            if len(ch) == 2 and z3.is_bv_value(ch[1]) and ch[1].as_long() == 0:
                n = ch[1].size()
                e = ch[0]
                if e.decl().kind() == z3.Z3_OP_EXTRACT:
                    hi, lo = e.params()
                    if lo == 0 and hi == w - 1 - n and e.children()[0].size() == w:
                        go(e.children()[0], c << n)
                        return
        if k == z3.Z3_OP_ITE and False:
            pass
        put(t, c)

    def put(t, c):
        i = t.get_id()
        if i in d:
            d[i] = (t, (d[i][1] + c) & M)
        else:
            d[i] = (t, c & M)

    go(t, 1)
    d = {k: v for k, v in d.items() if v[1]}
    return const, d


def unlinear(const, d, w=64):
    r = BV(const, w)
    for a, c in d.values():
        r = r + (a if c == 1 else BV(c, w) * a)
    return norm(r)


def exact_div(t, s, w=64):
    """t / s when every linear coefficient is (as a signed number) divisible by s; else None"""
    if s == 1:
        return t
    if isinstance(t, int):
        v = sgn(t, w)
        return ((v // s) & mask(w)) if v % s == 0 else None
    c, d = linear(t, w)
    cs = sgn(c, w)
    if cs % s:
        return None
    dd = {}
    for k, (a, co) in d.items():
        x = sgn(co, w)
        if x % s:
            return None
        dd[k] = (a, (x // s) & mask(w))
    return unlinear((cs // s) & mask(w), dd, w)


def symbols(t, acc=None):
    """uninterpreted constants and function names in a term"""
    if acc is None:
        acc = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not z3.is_expr(x):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return acc
