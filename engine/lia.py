"""Exact translation of bit-vector conditions to linear integer arithmetic.

Every w-bit term becomes an integer in [0, 2^w); additions that may leave the range get an explicit wrap count, so
the translation is equivalent to the bit-vector semantics (no mathematical-integer idealisation).  Terms outside
the fragment (general and/or/xor, products of two variables, symbolic shifts) make the translation refuse.
"""
import z3


class NoLIA(Exception):
    pass


K = {}
for _n in dir(z3):
    if _n.startswith('Z3_OP_'):
        K[getattr(z3, _n)] = _n[6:]

INT = z3.IntSort()


def isort(s):
    if s.kind() == z3.Z3_BV_SORT:
        return INT
    if s.kind() == z3.Z3_BOOL_SORT:
        return s
    if s.kind() == z3.Z3_ARRAY_SORT:
        return z3.ArraySort(isort(s.domain()), isort(s.range()))
    raise NoLIA(str(s))


class Side:
    """side conditions; each memoised term remembers which ones it (transitively) needs"""

    def __init__(self):
        self.items = []
        self.stack = [set()]

    def __iadd__(self, cs):
        for c in cs:
            self.stack[-1].add(len(self.items))
            self.items.append(c)
        return self


class Tr:
    def __init__(self):
        self.side = Side()
        self.memo = {}     # id -> (keepalive, int term, lo, hi, deps)
        self.bmemo = {}
        self.amemo = {}
        self.bad = {}      # id -> keepalive of terms outside the fragment
        self.n = 0
        self.funs = {}
        self.conds = {}    # id -> (keepalive, term, frozenset of side condition indices)

    def fresh(self):
        self.n += 1
        return z3.Int('k!%d' % self.n)

    def wrapped(self, s, lo, hi, w):
        """s in [lo,hi] reduced modulo 2^w"""
        M = 1 << w
        if lo >= 0 and hi < M:
            return s, lo, hi
        qlo, qhi = lo // M, hi // M
        if qlo == qhi:
            return s - qlo * M, lo - qlo * M, hi - qlo * M
        if qhi - qlo == 1:
            # one conditional wrap
            if qlo == 0:
                c = s >= M
                r = z3.If(c, s - M, s)
            else:
                c = s < (qlo + 1) * M
                r = z3.If(c, s - qlo * M, s - qhi * M)
            return r, 0, M - 1
        q = self.fresh()
        r = self.fresh()
        self.side += [r == s - q * M, r >= 0, r < M, q >= qlo, q <= qhi]
        return r, 0, M - 1

    def lin(self, t, c, acc):
        """accumulate c*t as a list of (coef, atom term)"""
        w = t.size()
        k = t.decl().kind()
        if z3.is_bv_value(t):
            acc[0] += c * t.as_long()
            return
        if k == z3.Z3_OP_BADD:
            for x in t.children():
                self.lin(x, c, acc)
            return
        if k == z3.Z3_OP_BSUB:
            ch = t.children()
            self.lin(ch[0], c, acc)
            for x in ch[1:]:
                self.lin(x, -c, acc)
            return
        if k == z3.Z3_OP_BNEG:
            self.lin(t.children()[0], -c, acc)
            return
        if k == z3.Z3_OP_BMUL:
            cs = 1
            rest = []
            for x in t.children():
                if z3.is_bv_value(x):
                    v = x.as_long()
                    if v >> (w - 1):
                        v -= 1 << w
                    cs *= v
                else:
                    rest.append(x)
            if not rest:
                acc[0] += c * cs
                return
            if len(rest) == 1:
                self.lin(rest[0], c * cs, acc)
                return
            raise NoLIA('mul')
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.children()[1]):
            n = t.children()[1].as_long()
            if n >= w:
                return
            self.lin(t.children()[0], c << n, acc)
            return
        i = t.get_id()
        if i in acc[1]:
            acc[1][i] = (t, acc[1][i][1] + c)
        else:
            acc[1][i] = (t, c)

    def bvt(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is not None:
            self.side.stack[-1] |= r[4]
            return r[1], r[2], r[3]
        if i in self.bad:
            raise NoLIA(self.bad[i][1])
        self.side.stack.append(set())
        try:
            x, lo, hi = self.bv1(t)
        except NoLIA as e:
            self.bad[i] = (t, str(e))
            self.side.stack.pop()
            raise
        d = self.side.stack.pop()
        self.side.stack[-1] |= d
        self.memo[i] = (t, x, lo, hi, d)
        return x, lo, hi

    def atom(self, x, w):
        self.side += [x >= 0, x < (1 << w)]
        return x, 0, (1 << w) - 1

    def split(self, x, lo, hi, n):
        """x = q*2^n + r"""
        M = 1 << n
        if hi < M:
            return (z3.IntVal(0), 0, 0), (x, lo, hi)
        q, r = self.fresh(), self.fresh()
        self.side += [x == q * M + r, r >= 0, r < M, q >= lo // M, q <= hi // M]
        return (q, lo // M, hi // M), (r, 0, M - 1)

    def bv1(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return z3.IntVal(v), v, v
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL, z3.Z3_OP_BSHL):
            if k == z3.Z3_OP_BSHL and not z3.is_bv_value(ch[1]):
                raise NoLIA('shl')
            acc = [0, {}]
            self.lin(t, 1, acc)
            H, M = 1 << (w - 1), 1 << w
            c0 = acc[0] % M
            if c0 >= H:
                c0 -= M
            s, lo, hi = None, c0, c0
            for a, c in acc[1].values():
                c %= M
                if c >= H:
                    c -= M
                if c == 0:
                    continue
                x, l, h = self.bvt(a)
                term = x if c == 1 else c * x
                s = term if s is None else s + term
                if c > 0:
                    lo, hi = lo + c * l, hi + c * h
                else:
                    lo, hi = lo + c * h, hi + c * l
            if s is None:
                return z3.IntVal(c0 % M), c0 % M, c0 % M
            if c0:
                s = s + c0
            return self.wrapped(s, lo, hi, w)
        if k == z3.Z3_OP_ITE:
            c = self.b(ch[0])
            x, l, h = self.bvt(ch[1])
            y, l2, h2 = self.bvt(ch[2])
            return z3.If(c, x, y), min(l, l2), max(h, h2)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.bvt(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            x, l, h = self.bvt(ch[0])
            n = ch[0].size()
            if h < 1 << (n - 1):
                return x, l, h
            d = (1 << w) - (1 << n)
            return z3.If(x >= (1 << (n - 1)), x + d, x), 0, (1 << w) - 1
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = t.params()
            x, l, h = self.bvt(ch[0])
            if lo_:
                (x, l, h), _ = self.split(x, l, h, lo_)
            _, (x, l, h) = self.split(x, l, h, hi_ - lo_ + 1)
            return x, l, h
        if k == z3.Z3_OP_CONCAT:
            s, lo, hi = None, 0, 0
            for c in ch:
                x, l, h = self.bvt(c)
                m = 1 << c.size()
                s = x if s is None else s * m + x
                lo, hi = lo * m + l, hi * m + h
            return s, lo, hi
        if k == z3.Z3_OP_BLSHR:
            if not z3.is_bv_value(ch[1]):
                raise NoLIA('lshr')
            x, l, h = self.bvt(ch[0])
            n = ch[1].as_long()
            if n >= w:
                return z3.IntVal(0), 0, 0
            return self.split(x, l, h, n)[0]
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(b):
                    v = b.as_long()
                    x, l, h = self.bvt(a)
                    if v & (v + 1) == 0:
                        return self.split(x, l, h, v.bit_length())[1]
                    # high mask: x minus its low bits
                    inv = v ^ ((1 << w) - 1)
                    if inv & (inv + 1) == 0:
                        r = self.split(x, l, h, inv.bit_length())[1]
                        return x - r[0], 0, h
            raise NoLIA('and')
        if k == z3.Z3_OP_BNOT:
            x, l, h = self.bvt(ch[0])
            M = (1 << w) - 1
            return M - x, M - h, M - l
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            d = ch[1].as_long()
            x, l, h = self.bvt(ch[0])
            q, r = self.fresh(), self.fresh()
            self.side += [x == q * d + r, r >= 0, r < d, q >= l // d, q <= h // d]
            return (q, l // d, h // d) if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else (r, 0, d - 1)
        if k == z3.Z3_OP_SELECT:
            a = self.arr(ch[0])
            i = self.bvt(ch[1])[0]
            return self.atom(z3.Select(a, i), w)
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.atom(self.app(t), w)
        raise NoLIA(K.get(k, str(k)))

    def app(self, t):
        d = t.decl()
        if d.arity() == 0:
            s = isort(t.sort())
            return z3.Const(d.name(), s)
        key = (d.name(), d.arity(), str(d.range()), tuple(str(d.domain(j)) for j in range(d.arity())))
        f = self.funs.get(key)
        if f is None:
            f = self.funs[key] = z3.Function(d.name(), *([isort(d.domain(i)) for i in range(d.arity())] + [isort(d.range())]))
        args = []
        for x in t.children():
            args.append(self.any(x))
        return f(*args)

    def any(self, x):
        s = x.sort().kind()
        if s == z3.Z3_BV_SORT:
            return self.bvt(x)[0]
        if s == z3.Z3_BOOL_SORT:
            return self.b(x)
        if s == z3.Z3_ARRAY_SORT:
            return self.arr(x)
        raise NoLIA('sort')

    def arr(self, t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.app(t)
        if k == z3.Z3_OP_STORE:
            return z3.Store(self.arr(ch[0]), self.bvt(ch[1])[0], self.bvt(ch[2])[0])
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.arr(ch[1]), self.arr(ch[2]))
        raise NoLIA('array')

    def sg(self, t):
        """signed value"""
        x, l, h = self.bvt(t)
        w = t.size()
        H = 1 << (w - 1)
        if h < H:
            return x
        if l >= H:
            return x - (1 << w)
        return z3.If(x >= H, x - (1 << w), x)

    def b(self, t):
        i = t.get_id()
        r = self.bmemo.get(i)
        if r is not None:
            self.side.stack[-1] |= r[2]
            return r[1]
        if i in self.bad:
            raise NoLIA(self.bad[i][1])
        self.side.stack.append(set())
        try:
            x = self.b1(t)
        except NoLIA as e:
            self.bad[i] = (t, str(e))
            self.side.stack.pop()
            raise
        d = self.side.stack.pop()
        self.side.stack[-1] |= d
        self.bmemo[i] = (t, x, d)
        return x

    def b1(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        if not z3.is_app(t):
            raise NoLIA('quantifier')
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(x) for x in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(x) for x in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return self.any(ch[0]) == self.any(ch[1])
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*[self.any(x) for x in ch])
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.app(t)
        if k == z3.Z3_OP_ULT:
            return self.bvt(ch[0])[0] < self.bvt(ch[1])[0]
        if k == z3.Z3_OP_ULEQ:
            return self.bvt(ch[0])[0] <= self.bvt(ch[1])[0]
        if k == z3.Z3_OP_UGT:
            return self.bvt(ch[0])[0] > self.bvt(ch[1])[0]
        if k == z3.Z3_OP_UGEQ:
            return self.bvt(ch[0])[0] >= self.bvt(ch[1])[0]
        if k == z3.Z3_OP_SLT:
            return self.sg(ch[0]) < self.sg(ch[1])
        if k == z3.Z3_OP_SLEQ:
            return self.sg(ch[0]) <= self.sg(ch[1])
        if k == z3.Z3_OP_SGT:
            return self.sg(ch[0]) > self.sg(ch[1])
        if k == z3.Z3_OP_SGEQ:
            return self.sg(ch[0]) >= self.sg(ch[1])
        raise NoLIA(K.get(k, str(k)))


TR = None


def translate(conds):
    """(integer conditions, exact): equivalent to the conjunction of conds if exact, otherwise implied by it
    (conditions outside the fragment are left out, so only an unsat answer may be used); None if nothing is left"""
    global TR
    if TR is None or TR.n > 400000:
        TR = Tr()
    tr = TR
    out, need, exact = [], set(), True
    for c in conds:
        i = c.get_id()
        r = tr.conds.get(i)
        if r is None:
            tr.side.stack = [set()]
            try:
                r = (c, tr.b(c), frozenset(tr.side.stack[0]))
            except NoLIA as e:
                translate.last = str(e)
                r = (c, None, None)
            except z3.Z3Exception as e:
                translate.last = str(e)
                r = (c, None, None)
            tr.conds[i] = r
        if r[1] is None:
            exact = False
        else:
            out.append(r[1])
            need |= r[2]
    if not out:
        return None
    items = tr.side.items
    return out + [items[j] for j in sorted(need)], exact
