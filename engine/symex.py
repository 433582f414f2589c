"""Contract-based symbolic executor / verification-condition generator over LLVM IR.

A function under contract is executed from a symbolic pre-state that satisfies its precondition; calls to
functions that have a contract use the contract, other defined functions are stepped into; loops are either
unrolled completely (when every header decision is forced) or cut with an inductive summary (see loops.py).
Every check made on the way (bounds, asserts, post-conditions, invariants, frame, ordering) is an Obligation.
"""
import itertools
import subprocess
import time
import z3
from terms import *
import llvm_ir
import lia


class Unsupported(Exception):
    """the tool cannot interpret something: never a verdict about the code"""


class Budget(Unsupported):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj.name if self.obj else None, self.off)


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn=None):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Undef:
    """undef/poison/uninitialised value of width w"""
    __slots__ = ()


UNDEF = Undef()


class Obj:
    _n = itertools.count(1)

    def __init__(self, name, size, kind='param', esz=1, mirror=None, ro=False):
        self.id = next(Obj._n)
        self.name = name
        self.size = size
        self.kind = kind
        self.esz = esz
        self.mirror = mirror
        self.ro = ro
        self.watch = False
        self.addr = None
        self.tag = None
        self.arr = None

    def __repr__(self):
        return 'Obj(%s)' % self.name


# ---- memory chain nodes ----
class Node:
    __slots__ = ('next',)


class Cells(Node):
    __slots__ = ('d', 'shared')

    def __init__(self, d, nxt):
        self.d = d
        self.next = nxt
        self.shared = False


class W(Node):
    __slots__ = ('off', 'size', 'val')

    def __init__(self, off, size, val, nxt):
        self.off, self.size, self.val, self.next = off, size, val, nxt


class Region(Node):
    """[off, off+len) has contents fn(ex, st, rel, size)"""
    __slots__ = ('off', 'len', 'fn')

    def __init__(self, off, ln, fn, nxt):
        self.off, self.len, self.fn, self.next = off, ln, fn, nxt


class MapN(Node):
    """for j<count: cell base+j*stride of `width` bytes has value fn(ex, st, j)"""
    __slots__ = ('base', 'stride', 'width', 'count', 'fn')

    def __init__(self, base, stride, width, count, fn, nxt):
        self.base, self.stride, self.width, self.count, self.fn, self.next = base, stride, width, count, fn, nxt


class BaseArr(Node):
    __slots__ = ('arr', 'esz')

    def __init__(self, arr, esz):
        self.arr, self.esz, self.next = arr, esz, None


class BaseZero(Node):
    def __init__(self):
        self.next = None


class BaseUndef(Node):
    __slots__ = ('arr',)

    def __init__(self, arr):
        self.arr = arr
        self.next = None


class Frame:
    __slots__ = ('fn', 'bb', 'prev', 'ip', 'env', 'inst', 'loops')

    def copy(self):
        f = Frame()
        f.fn, f.bb, f.prev, f.ip, f.inst = self.fn, self.bb, self.prev, self.ip, self.inst
        f.env = dict(self.env)
        f.loops = dict(self.loops)
        return f


class State:
    def __init__(self):
        self.pc = []
        self.mem = {}
        self.frames = []
        self.ghost = {}
        self.events = []
        self.idx = ()
        self.status = 'run'
        self.ret = None
        self.dead = frozenset()
        self.pcids = set()
        self.steps = 0
        self.inexact = False

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.mem = dict(self.mem)
        for n in s.mem.values():
            if isinstance(n, Cells):
                n.shared = True
        s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.events = list(self.events)
        s.idx = self.idx
        s.status = self.status
        s.ret = self.ret
        s.dead = self.dead
        s.steps = self.steps
        s.inexact = self.inexact
        return s

    def assume(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        i = c.get_id()
        if i not in self.pcids:
            self.pcids.add(i)
            self.pc.append(c)


class Obligation:
    __slots__ = ('name', 'kind', 'status', 'loc', 'model', 'tags', 'time', 'backend', 'fn', 'exact')

    def asdict(self):
        return {k: getattr(self, k) for k in self.__slots__}


def _kill_fresh():
    pass


def bits_to_fp(b, sort):
    if z3.is_app(b):
        k = b.decl().kind()
        if k == z3.Z3_OP_FPA_TO_IEEE_BV and b.children()[0].sort() == sort:
            return b.children()[0]
        if k == z3.Z3_OP_ITE and has_ieee(b):
            c, x, y = b.children()
            return z3.If(c, bits_to_fp(x, sort), bits_to_fp(y, sort))
    return z3.fpBVToFP(b, sort)


def has_ieee(b):
    if not z3.is_app(b):
        return False
    k = b.decl().kind()
    return k == z3.Z3_OP_FPA_TO_IEEE_BV or (k == z3.Z3_OP_ITE and any(has_ieee(x) for x in b.children()[1:]))


def no_ieee_bv(conds):
    """fp.to_ieee_bv is z3's own: replace x by the bits v of an unknown with to_fp(v) = x (equivalent for proving)"""
    memo = {}
    side = []

    def tr(t):
        i = t.get_id()
        r = memo.get(i)
        if r is not None:
            return r[1]
        if z3.is_app(t) and t.num_args():
            k = t.decl().kind()
            if k == z3.Z3_OP_FPA_TO_FP and t.num_args() == 1 and z3.is_bv(t.children()[0]) and has_ieee(t.children()[0]):
                u = bits_to_fp(t.children()[0], t.sort())
                r = tr(u)
            elif k == z3.Z3_OP_FPA_TO_IEEE_BV:
                x = tr(t.children()[0])
                r = z3.BitVec('ieee!%d' % len(memo), t.size())
                side.append(z3.fpBVToFP(r, x.sort()) == x)
            else:
                ch = [tr(c) for c in t.children()]
                r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
        else:
            r = t
        memo[i] = (t, r)
        return r
    return [tr(c) for c in conds] + side


def _fps(k):
    return z3.Float64() if k == 'double' else z3.Float32()


def realize(conds, extra=None):
    """give the uninterpreted floating-point operations their IEEE meaning"""
    memo = {}
    R = z3.RNE()

    def tr(t):
        i = t.get_id()
        r = memo.get(i)
        if r is not None:
            return r[1]
        if z3.is_app(t) and t.num_args():
            ch = [tr(c) for c in t.children()]
            r = None
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if extra and n in extra:
                    r = tr(extra[n](*ch))
                else:
                    p = n.split('_')
                    if p[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg') and p[-1] in ('double', 'float'):
                        S = _fps(p[-1])
                        x = [bits_to_fp(c, S) for c in ch]
                        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(p[0])
                        r = z3.fpToIEEEBV(z3.fpNeg(x[0]) if f is None else f(R, x[0], x[1]))
                    elif p[0] == 'fcmp':
                        S = _fps(p[-1])
                        x = [bits_to_fp(c, S) for c in ch]
                        uno = z3.Or(z3.fpIsNaN(x[0]), z3.fpIsNaN(x[1]))
                        r = {'olt': lambda: z3.fpLT(*x), 'ole': lambda: z3.fpLEQ(*x), 'oeq': lambda: z3.fpEQ(*x), 'one': lambda: z3.And(z3.Not(uno), z3.Not(z3.fpEQ(*x))), 'ord': lambda: z3.Not(uno)}[p[1]]()
                    elif p[0] in ('fptoui', 'fptosi'):
                        x = bits_to_fp(ch[0], _fps(p[1]))
                        r = (z3.fpToUBV if p[0] == 'fptoui' else z3.fpToSBV)(z3.RTZ(), x, t.sort())
                    elif p[0] in ('uitofp', 'sitofp'):
                        f = z3.fpToFPUnsigned if p[0] == 'uitofp' else z3.fpSignedToFP
                        r = z3.fpToIEEEBV(f(R, ch[0], _fps(p[2])))
                    elif p[0] in ('fpext', 'fptrunc'):
                        r = z3.fpToIEEEBV(z3.fpFPToFP(R, bits_to_fp(ch[0], _fps(p[1])), _fps(p[2])))
            if r is None:
                if t.decl().kind() == z3.Z3_OP_FPA_TO_FP and len(ch) == 1 and z3.is_bv(ch[0]):
                    r = bits_to_fp(ch[0], t.sort())
                else:
                    r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
        else:
            r = t
        memo[i] = (t, r)
        return r
    return [tr(c) for c in conds]


class Executor:
    def __init__(self, module, timeout_ms=20000, fp='uf'):
        self.m = module
        self.timeout = timeout_ms
        self.fp = fp
        self.obls = []
        self.contracts = {}       # mangled name -> handler
        self.contract_pred = []   # (predicate(name), handler)
        self.cur_fn = None
        self.n = itertools.count()
        self.solver_time = 0.0
        self.queries = 0
        self.gobjs = {}
        self.hooks_load = []
        self.hooks_store = []
        self.blind = set()        # objects whose contents are left open (every load gives any value)
        self.asked = {}
        self.blind_drop = set()   # ... and what is stored there is not kept
        self.blind_bytes = False  # byte arrays on the stack are such objects
        self.loop_inv = None      # callback(ex, st, frame, header, phase) -> list of bools
        self.use_lia = True
        self.loop_mode = None     # callback(fn, header) -> 'unroll'|'summary'|None
        self.max_unroll = 20000
        self.max_steps = 3_000_000
        self.total_steps = 0
        self.deadline = None
        self.exact_paths = True
        self.ufnames = set()
        self.inexact_reasons = []
        self.allow_throw = True
        self.check_uninit = False
        self.used_contracts = {}
        self.stepped = set()
        self.cache = {}
        self.unknowns = 0
        self._lin = {}
        self.zext_facts = True
        self.sup_unroll = 64      # symbolic loops are never unrolled; forced ones up to max_unroll
        self.nsw_check = False
        self.fresh_log = {}
        self.undef_reads = 0
        self.quiet = 0
        self.fp_extra = {}        # meaning of specification-level predicates on floating-point bits
        self.init_builtins()

    # ---------- fresh symbols ----------
    def fresh(self, st, name, w):
        nm = '%s!%d' % (name, next(self.n))
        if st is not None and st.idx:
            f = z3.Function(nm, *([bvs(64)] * len(st.idx) + [bvs(w)]))
            return f(*[bv(i, 64) for i in st.idx])
        return z3.BitVec(nm, w)

    def fresh_bool(self, st, name):
        nm = '%s!%d' % (name, next(self.n))
        if st is not None and st.idx:
            f = z3.Function(nm, *([bvs(64)] * len(st.idx) + [z3.BoolSort()]))
            return f(*[bv(i, 64) for i in st.idx])
        return z3.Bool(nm)

    def fresh_arr(self, name, esz=1):
        return z3.Array('%s!%d' % (name, next(self.n)), bvs(64), bvs(8 * esz))

    # ---------- solving ----------
    def _solve(self, conds, timeout=None, want_model=False):
        self.queries += 1
        t0 = time.time()
        timeout = timeout or self.timeout
        r = z3.unknown
        s = None
        eqs = commutations(conds)
        if eqs:
            conds = list(conds) + eqs
        if any(has_product(c) for c in conds):
            # products of unknowns as an uninterpreted (commutative) operation: enough when the operands are equal
            ab = [abstract_products(c) for c in conds]
            ab += commutations(ab)
            ic = lia.translate(ab) if self.use_lia else None
            for cs, nm in ((ic[0], 'z3-lia'), (ab, 'z3-bv')) if ic is not None else ((ab, 'z3-bv'),):
                s = z3.Solver()
                s.set('timeout', min(timeout, 2000))
                s.add(*cs)
                if s.check() == z3.unsat:
                    self.last_backend = nm
                    self.solver_time += time.time() - t0
                    return z3.unsat, s
        ic = lia.translate(conds) if self.use_lia else None
        self.last_backend = 'z3'
        if ic is not None:
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*ic[0])
            r = s.check()
            self.last_backend = 'z3-lia'
            if r == z3.sat and not ic[1]:
                r = z3.unknown
        if r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', timeout)
            for c in conds:
                s.add(c)
            r = s.check()
            self.last_backend = 'z3-bv'
        self.solver_time += time.time() - t0
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        return r, s

    def slice_pc(self, st, cond):
        """path conditions connected to cond through shared symbols"""
        need = set(symbols(cond))
        items = []
        for c in st.pc:
            i = c.get_id()
            sy = self._lin.get(i)
            if sy is None:
                sy = self._lin[i] = (frozenset(symbols(c)), c)
            items.append((c, sy[0]))
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, sy in items:
                if not sy or sy & need:
                    out.append(c)
                    if not sy <= need:
                        need |= sy
                        changed = True
                else:
                    rest.append((c, sy))
            items = rest
        return out

    def prove(self, st, cond, timeout=None):
        """True iff pc => cond is proved (False on sat or unknown)"""
        if cond is True:
            return True
        if cond is False:
            return False
        cond = nbool(cond)
        if isinstance(cond, bool):
            return cond
        if cond.get_id() in st.pcids:
            return True
        key = (cond.get_id(), len(st.pc), st.pc[-1].get_id() if st.pc else 0, id(st) if False else tuple(c.get_id() for c in st.pc[-3:]))
        pcs = self.slice_pc(st, cond)
        key = (cond.get_id(), frozenset(c.get_id() for c in pcs))
        r = self.cache.get(key)
        if r is None:
            q, _ = self._solve(pcs + [z3.Not(cond)], timeout or min(self.timeout, 5000))
            r = (q == z3.unsat, cond, pcs)
            self.cache[key] = r
        return r[0]

    def feasible(self, st, cond):
        """False only if pc & cond is proved unsat"""
        if cond is True:
            return True
        if cond is False:
            return False
        cond = nbool(cond)
        if isinstance(cond, bool):
            return cond
        if not self.blind:
            return not self.prove(st, nbool(z3.Not(cond)))
        # states that differ only in what was not kept ask the same again
        key = (frozenset(st.pcids), cond.get_id())
        if key not in self.asked:
            self.asked[key] = (not self.prove(st, nbool(z3.Not(cond))), cond, list(st.pc))
        return self.asked[key][0]

    def check(self, st, cond, name, kind='assert', loc=None, tags=()):
        if self.quiet:
            return True             # exploratory pass of a loop summary: obligations are generated in the final pass
        o = Obligation()
        o.name, o.kind, o.loc, o.tags = name, kind, (loc if loc is None or isinstance(loc, (str, tuple)) else self.loc(loc)), tuple(tags)
        o.fn = self.cur_fn
        o.model = None
        o.exact = self.exact_paths and not st.inexact
        o.backend = 'trivial'
        t0 = time.time()
        if not isinstance(cond, bool):
            cond = nbool(cond)
        if cond is True:
            o.status = 'ok'
        elif cond is False and not st.pc:
            o.status = 'fail'
            o.model = {}
        else:
            neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
            pcs = st.pc if cond is False else self.slice_pc(st, cond)
            if 'fp' in tags:
                # decided in IEEE arithmetic: first from the path conditions over the same symbols only, then from all
                need = symbols(cond) if cond is not False else set()
                near = [c for c in pcs if set(symbols(c)) <= need]
                for sub in (near, pcs):
                    conds = realize(sub + [neg], self.fp_extra)
                    o.status = self.second_opinion(conds, o)
                    if o.status == 'ok':
                        break
                if o.status != 'ok':
                    s = z3.Solver()
                    s.set('timeout', self.timeout)
                    s.add(*conds)
                    r = s.check()
                    o.backend = 'z3-fp'
                    o.status = 'ok' if r == z3.unsat else 'fail' if r == z3.sat else o.status
                    if r == z3.sat:
                        o.model = self.model_dict(s.model())
                if o.status == 'fail':
                    o.exact = o.exact and not self.mentions_uf(conds)
                o.time = time.time() - t0
                self.solver_time += o.time
                self.obls.append(o)
                return o.status == 'ok'
            r, s = self._solve(pcs + [neg])
            o.backend = self.last_backend
            if r == z3.unsat:
                o.status = 'ok'
            elif r == z3.sat:
                # the slice drops satisfiable-independent parts only if the full pc is satisfiable
                r2, s2 = self._solve(st.pc + [neg])
                if r2 == z3.unsat:
                    o.status = 'ok'
                else:
                    o.status = 'fail' if r2 == z3.sat else 'fail'
                    o.model = self.model_dict((s2 if r2 == z3.sat else s).model())
            else:
                o.status = self.second_opinion(pcs + [neg], o)
        if o.status == 'fail' and o.exact and self.ufnames and cond is not False and self.mentions_uf([cond] + st.pc):
            o.exact = False
        o.time = time.time() - t0
        self.obls.append(o)
        return o.status == 'ok'

    def second_opinion(self, conds, o):
        try:
            s = z3.Solver()
            for c in no_ieee_bv(conds):
                s.add(c)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--tlimit=%d' % (self.timeout * 2), '-'], input=txt, capture_output=True,
                               text=True, timeout=self.timeout * 2 / 1000 + 20)
            out = p.stdout.strip().split('\n')[0]
            self.queries += 1
            if out == 'unsat':
                o.backend = 'cvc5'
                return 'ok'
            if out == 'sat':
                o.backend = 'cvc5'
                o.model = {}
                return 'fail'
        except Exception:
            pass
        self.unknowns += 1
        return 'unknown'

    def model_dict(self, m):
        d = {}
        for x in m.decls():
            v = m[x]
            try:
                if z3.is_bv_value(v) or z3.is_int_value(v):
                    if not x.name().startswith('k!'):
                        d[x.name()] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v):
                    d[x.name()] = bool(z3.is_true(v))
                else:
                    t = str(v)
                    d[x.name()] = t if len(t) < 300 else t[:300] + '...'
            except Exception:
                pass
        return d

    def assume_valid(self, st):
        """is the path condition satisfiable (True/False/None)"""
        r, _ = self._solve(st.pc)
        return True if r == z3.sat else False if r == z3.unsat else None

    def fail(self, st, name, kind='assert', loc=None, tags=()):
        return self.check(st, False, name, kind, loc, tags)

    # ---------- objects ----------
    def new_obj(self, st, name, size, kind='param', esz=1, init='sym', mirror=None, ro=False):
        o = Obj(name, size, kind, esz, mirror, ro)
        self.__dict__.setdefault('_objtab', {})[o.id] = o
        if init == 'sym':
            o.arr = self.fresh_arr(name, esz)
            st.mem[o.id] = BaseArr(o.arr, esz)
        elif init == 'zero':
            st.mem[o.id] = BaseZero()
        else:
            o.arr = self.fresh_arr(name + '_undef', 1)
            st.mem[o.id] = BaseUndef(o.arr)
        return o

    def addr_of(self, o):
        if o.addr is None:
            o.addr = z3.BitVec('addr_%s_%d' % (o.name, o.id), 64)
            self.addrs = getattr(self, 'addrs', {})
            self.addrs[o.addr.get_id()] = o
        return o.addr

    def p2i(self, p):
        if isinstance(p, FnPtr):
            return z3.BitVec('fnaddr_' + p.name, 64)
        if p.obj is None:
            return p.off
        return add(self.addr_of(p.obj), p.off)

    def i2p(self, st, v):
        if isinstance(v, int):
            return Ptr(None, v)
        c, d = linear(v)
        hit = [k for k in d if k in getattr(self, 'addrs', {}) and d[k][1] == 1]
        if len(hit) == 1:
            o = self.addrs[hit[0]]
            dd = {k: x for k, x in d.items() if k != hit[0]}
            return Ptr(o, unlinear(c, dd))
        return Ptr(None, v)

    def global_obj(self, st, g):
        o = self.gobjs.get(g.name)
        if o is None:
            o = Obj('@' + g.name, g.vty.size, 'global', 1, ro=g.const)
            self.gobjs[g.name] = o
            self.__dict__.setdefault('_objtab', {})[o.id] = o
        if o.id not in st.mem:
            h = getattr(self, 'global_init', None)
            if h and h(self, st, g, o):
                return o
            if g.decl or (not g.const and getattr(self, 'havoc_globals', False)):
                if o.arr is None:
                    o.arr = self.fresh_arr(g.name, 1)
                st.mem[o.id] = BaseArr(o.arr, 1)
            else:
                d = {}
                self.const_cells(st, g.init, g.vty, 0, d)
                st.mem[o.id] = Cells(d, BaseZero())
        return o

    def const_cells(self, st, v, ty, off, d):
        if v is None or v.kind in ('zero', 'undef'):
            return
        if v.kind == 'null':
            d[off] = (8, NULL)
        elif v.kind == 'bytes':
            for i, b in enumerate(v.val):
                if b:
                    d[off + i] = (1, b)
        elif v.kind == 'agg':
            if ty.k == 'struct':
                for e, t, o in zip(v.ops, ty.els, ty.offs):
                    self.const_cells(st, e, t, off + o, d)
            else:
                for i, e in enumerate(v.ops):
                    self.const_cells(st, e, ty.el, off + i * ty.el.size, d)
        else:
            x = self.const(st, v)
            d[off] = (ty.store, x)

    # ---------- constants / operands ----------
    def fpbits(self, ty, v):
        import struct
        x = v.x
        if x.startswith('0x') and x[2:3] in 'KLMHR':
            raise Unsupported('fp constant ' + x)
        if ty.k == 'double':
            return struct.unpack('<Q', struct.pack('<d', v.val))[0] if not x.startswith('0x') else int(x, 16)
        if ty.k == 'float':
            if x.startswith('0x'):
                dv = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
                if dv != dv:
                    return 0x7fc00000
                return struct.unpack('<I', struct.pack('<f', dv))[0]
            return struct.unpack('<I', struct.pack('<f', v.val))[0]
        raise Unsupported('fp type ' + ty.k)

    def const(self, st, v):
        k = v.kind
        if k == 'int':
            return v.val
        if k == 'null':
            return NULL
        if k == 'fp':
            return self.fpbits(v.ty, v)
        if k == 'func':
            return FnPtr(v.name, v.val)
        if k == 'global':
            return Ptr(self.global_obj(st, v.val), 0)
        if k == 'undef':
            return self.undef(st, v.ty)
        if k == 'zero':
            return self.zero(v.ty)
        if k == 'agg':
            return [self.const(st, x) for x in v.ops]
        if k == 'bytes':
            return list(v.val)
        if k == 'cexpr':
            if v.op == 'gep':
                return self.gep(st, v.x, [self.const(st, o) for o in v.ops], [o.ty for o in v.ops])
            if v.op == 'ptrtoint':
                return self.p2i(self.const(st, v.ops[0]))
            if v.op == 'inttoptr':
                return self.i2p(st, self.const(st, v.ops[0]))
            if v.op in ('add', 'sub', 'and', 'or', 'xor', 'mul'):
                return self.binop(st, v.op, self.const(st, v.ops[0]), self.const(st, v.ops[1]), v.ty.n, None)
            if v.op in ('trunc',):
                return self.castop(st, v.op, self.const(st, v.ops[0]), v.ops[0].ty, v.ty)
            if v.op == 'icmp':
                return self.icmp(st, v.x, self.const(st, v.ops[0]), self.const(st, v.ops[1]), v.ops[0].ty)
            if v.op == 'bitcast':
                return self.const(st, v.ops[0])
        if k == 'meta':
            return None
        raise Unsupported('constant %s %s' % (k, v.op))

    def undef(self, st, ty):
        if ty.k == 'int':
            return self.fresh(st, 'undef', ty.n)
        if ty.k in ('float', 'double'):
            return self.fresh(st, 'undef', ty.size * 8)
        if ty.k == 'ptr':
            return Ptr(None, self.fresh(st, 'undefptr', 64))
        if ty.k == 'struct':
            return [self.undef(st, t) for t in ty.els]
        if ty.k in ('array', 'vector'):
            return [self.undef(st, ty.el) for _ in range(ty.n)]
        raise Unsupported('undef ' + ty.k)

    def zero(self, ty):
        if ty.k in ('int', 'float', 'double'):
            return 0
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return [self.zero(t) for t in ty.els]
        if ty.k in ('array', 'vector'):
            return [self.zero(ty.el) for _ in range(ty.n)]
        raise Unsupported('zero ' + ty.k)

    def val(self, st, v):
        if v.kind in ('inst', 'arg'):
            env = st.frames[-1].env
            try:
                return env[v.id]
            except KeyError:
                raise Unsupported('use of undefined value %r' % v)
        return self.const(st, v)

    # ---------- memory ----------
    def canon(self, st, o, off, n):
        """fold an address of the second mapping onto the first"""
        if o.mirror is None:
            return off
        S = o.mirror
        if self.prove(st, ult(off, S)):
            return off
        if self.prove(st, bnot(ult(off, S))):
            return sub(off, S)
        return norm(bv(ite(ult(off, S), off, sub(off, S), 64), 64))

    def bound(self, st, p, n, what, loc=None):
        o = p.obj
        if o is None:
            if isinstance(p.off, int):
                self.fail(st, '%s through null pointer' % what, 'memory', loc)
            else:
                self.fail(st, '%s through a wild pointer' % what, 'memory', loc)
            st.status = 'ub'
            return False
        if o.id in st.dead:
            self.fail(st, '%s of dead object %s' % (what, o.name), 'memory', loc)
            st.status = 'ub'
            return False
        if self.quiet:
            return True             # (exploratory pass of a loop summary)
        sz = o.size if o.mirror is None else mul(o.mirror, 2)
        if isinstance(sz, int) and isinstance(p.off, int) and isinstance(n, int):
            c = p.off + n <= sz
        else:
            c = band(ule(n, sz), ule(p.off, sub(sz, n)))
        if not self.check(st, c, '%s in bounds of %s' % (what, o.name), 'memory', loc):
            if self.obls[-1].status == 'fail':
                st.assume(c if not isinstance(c, bool) else c)
                if c is False or not self.feasible(st, True):
                    st.status = 'ub'
                    return False
            else:
                st.assume(c)
        return True

    def load(self, st, p, n, as_ptr=False, what='read', checked=True, loc=None, ordering='na'):
        if checked and not self.bound(st, p, n, what, loc):
            return None
        off = self.canon(st, p.obj, p.off, n)
        for h in self.hooks_load:
            h(self, st, p.obj, off, n, ordering)
        if p.obj.id in self.blind and isinstance(n, int):
            # contents left open: any value, and nothing is learnt from branching on it
            return self.open_value(st, 8 * n)
        return self.rd(st, st.mem[p.obj.id], off, n)

    def rd(self, st, node, off, n, depth=0):
        """value of n bytes at off, walking the write history"""
        while True:
            t = type(node)
            if t is Cells:
                if isinstance(off, int):
                    c = node.d.get(off)
                    if c is not None and c[0] == n:
                        return c[1]
                    hit = False
                    for o in range(off - 63, off + n):
                        c = node.d.get(o)
                        if c is not None and o + c[0] > off:
                            hit = True
                            break
                    if not hit:
                        # nodes below with concrete offsets
                        node = node.next
                        continue
                    if n == 1:
                        for o in range(off - 63, off + 1):
                            c = node.d.get(o)
                            if c is not None and o + c[0] > off:
                                v = c[1]
                                if isinstance(v, (Ptr, FnPtr)):
                                    v = self.p2i(v)
                                if isinstance(v, list):
                                    raise Unsupported('byte of aggregate')
                                sh = (off - o) * 8
                                if isinstance(v, int):
                                    return (v >> sh) & 255
                                return norm(z3.Extract(sh + 7, sh, v))
                        node = node.next
                        continue
                    return self.split(st, node, off, n)
                # symbolic offset over concrete cells
                rest_n = node.next
                cands = []
                lo, hi = self.range_of(st, off)
                for o, c in node.d.items():
                    if o + c[0] <= lo or o > hi + n - 1:
                        continue
                    cands.append((o, c))
                if not cands:
                    node = rest_n
                    continue
                same = [x for x in cands if x[1][0] == n]
                others = [x for x in cands if x[1][0] != n]
                if others:
                    # is any other-sized cell overlapped?
                    ov = [band(ult(off, o + c[0]), ult(o, add(off, n))) for o, c in others]
                    if not self.prove(st, bnot(bor(*ov))):
                        if n > 1:
                            return self.split(st, node, off, n)
                        # bytes from wider cells
                        r = self.rd(st, rest_n, off, 1)
                        if r is None or isinstance(r, (Ptr, FnPtr)):
                            raise Unsupported('byte of pointer')
                        for o, c in cands:
                            v = c[1]
                            if isinstance(v, (Ptr, FnPtr)):
                                v = self.p2i(v)
                            for k in range(c[0]):
                                b = (v >> (8 * k)) & 255 if isinstance(v, int) else z3.Extract(8 * k + 7, 8 * k, v)
                                r = ite(eq(off, o + k), b, r, 8)
                        return norm(r)
                if len(same) > 1 or True:
                    # partial overlap with equal-sized cells: need alignment
                    ok = True
                    if n > 1:
                        al = [bor(eq(off, o), ule(add(off, n), o), ule(o + n, off)) for o, c in same]
                        ok = self.prove(st, band(*al))
                    if not ok:
                        return self.split(st, node, off, n)
                if any(isinstance(c[1], (Ptr, FnPtr)) for o, c in same):
                    live = [(o, c) for o, c in same if self.feasible(st, eq(off, o))]
                    if len(live) == 1 and self.prove(st, eq(off, live[0][0])):
                        return live[0][1][1]
                    raise Unsupported('symbolic read of pointer table')
                anyc = bor(*[eq(off, o) for o, c in same])
                if self.prove(st, anyc):
                    r = same[-1][1][1]
                    lst = same[:-1]
                else:
                    r = self.rd(st, rest_n, off, n)
                    lst = same
                if isinstance(r, (Ptr, FnPtr)):
                    raise Unsupported('symbolic read of pointer table')
                for o, c in lst:
                    r = ite(eq(off, o), c[1], r, 8 * n)
                return norm(r)
            elif t is W:
                if self.same(st, off, node.off):
                    if node.size == n:
                        return node.val
                    if node.size > n and not isinstance(node.val, (Ptr, FnPtr)):
                        return node.val & mask(8 * n) if isinstance(node.val, int) else norm(z3.Extract(8 * n - 1, 0, node.val))
                    return self.split(st, node, off, n)
                disj = bor(band(ule(add(off, n), node.off), ule(off, add(off, n))),
                           band(ule(add(node.off, node.size), off), ule(node.off, add(node.off, node.size))))
                if self.prove(st, disj):
                    node = node.next
                    continue
                e = eq(off, node.off)
                if node.size == n and self.prove(st, bor(e, disj)):
                    r = self.rd(st, node.next, off, n)
                    return self.merge(st, e, node.val, r, 8 * n)
                if n > 1:
                    return self.split(st, node, off, n)
                v = node.val
                if isinstance(v, (Ptr, FnPtr)):
                    v = self.p2i(v)
                r = self.rd(st, node.next, off, 1)
                for k in range(node.size):
                    b = (v >> (8 * k)) & 255 if isinstance(v, int) else z3.Extract(8 * k + 7, 8 * k, v)
                    r = ite(eq(off, add(node.off, k)), b, r, 8)
                return norm(r)
            elif t is Region:
                rel = sub(off, node.off)
                inside = band(ult(rel, node.len), ule(n, node.len), ule(rel, sub(node.len, n)))
                if self.prove(st, inside):
                    return node.fn(self, st, rel, n)
                # disjoint: rel >= len and (off+n-1 - node.off) wraps or >= len
                e = add(rel, n - 1)
                disj = band(bnot(ult(rel, node.len)), bnot(ult(e, node.len)))
                if n == 1:
                    disj = bnot(ult(rel, node.len))
                if self.prove(st, disj):
                    node = node.next
                    continue
                if n == 1 or self.prove(st, bor(inside, disj)):
                    a = self.under(st, inside, lambda s: node.fn(self, s, rel, n))
                    b = self.under(st, bnot(inside), lambda s: self.rd(s, node.next, off, n))
                    return self.merge(st, inside, a, b, 8 * n)
                return self.split(st, node, off, n)
            elif t is MapN:
                r = self.rd_map(st, node, off, n)
                if r is not None:
                    return r[0]
                node = node.next
                continue
            elif t is BaseArr:
                return self.rd_arr(st, node, off, n)
            elif t is BaseZero:
                return 0
            elif t is BaseUndef:
                self.undef_reads += 1
                if self.check_uninit:
                    self.fail(st, 'read of uninitialised memory', 'uninit')
                return self.rd_arr(st, BaseArr(node.arr, 1), off, n)
            else:
                raise Unsupported('memory node %s' % t)

    def under(self, st, cond, fn):
        """evaluate fn with cond assumed, keeping any facts learned guarded"""
        if cond is True:
            return fn(st)
        n = len(st.pc)
        ids = set(st.pcids)
        st.assume(cond)
        try:
            r = fn(st)
            new = st.pc[n:]
        finally:
            del st.pc[n:]
            st.pcids = ids
        for c in new:
            if not c.eq(cond) and c.get_id() not in ids:
                st.assume(z3.Implies(zb(cond), c))
        return r

    def merge(self, st, c, a, b, w):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return Ptr(a.obj, norm(bv(ite(c, a.off, b.off, 64), 64)))
            raise Unsupported('conditional pointer value')
        return norm(bv(ite(c, a, b, w), w))

    def range_of(self, st, off):
        if isinstance(off, int):
            return off, off
        # cheap: zero-extended small index forms
        return self._rng(off)

    def _rng(self, t):
        if isinstance(t, int):
            return t, t
        if z3.is_bv_value(t):
            return t.as_long(), t.as_long()
        w = t.size()
        full = (0, mask(w))
        k = t.decl().kind()
        if k == z3.Z3_OP_CONCAT:
            lo = hi = 0
            for c in t.children():
                a, b = self._rng(c)
                lo = (lo << c.size()) | a
                hi = (hi << c.size()) | b
            return lo, hi
        if k == z3.Z3_OP_ZERO_EXT:
            return self._rng(t.children()[0])
        if k == z3.Z3_OP_BADD:
            lo = hi = 0
            for c in t.children():
                a, b = self._rng(c)
                lo += a
                hi += b
            return (lo, hi) if hi <= mask(w) else full
        if k == z3.Z3_OP_BMUL:
            lo = hi = 1
            for c in t.children():
                a, b = self._rng(c)
                lo *= a
                hi *= b
            return (lo, hi) if hi <= mask(w) else full
        if k == z3.Z3_OP_BAND:
            hi = mask(w)
            for c in t.children():
                hi = min(hi, self._rng(c)[1])
            return 0, hi
        if k == z3.Z3_OP_ITE:
            a = self._rng(t.children()[1])
            b = self._rng(t.children()[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            a, b = self._rng(t.children()[0])
            if lo == 0 and b <= mask(hi + 1):
                return a, b
            if b >> lo <= mask(hi - lo + 1):
                return a >> lo, b >> lo
            return full
        return full

    def same(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        d = sub(a, b)
        if isinstance(d, int):
            return d == 0
        return False

    def split(self, st, node, off, n):
        if n == 1:
            raise Unsupported('cannot split a byte')
        if n & (n - 1):
            h = 1
            while h * 2 < n:
                h *= 2
        else:
            h = n // 2
        lo = self.rd(st, node, off, h)
        hi = self.rd(st, node, add(off, h), n - h)
        if isinstance(lo, (Ptr, FnPtr)) or isinstance(hi, (Ptr, FnPtr)):
            raise Unsupported('part of pointer')
        if isinstance(lo, int) and isinstance(hi, int):
            return lo | (hi << (8 * h))
        return norm(z3.Concat(bv(hi, 8 * (n - h)), bv(lo, 8 * h)))

    def rd_arr(self, st, node, off, n):
        e = node.esz
        if e == 1:
            bs = [z3.Select(node.arr, bv(add(off, i), 64)) for i in range(n)]
            return norm(bs[0] if n == 1 else z3.Concat(*reversed(bs)))
        if n % e == 0:
            i = exact_div(off, e)
            if i is None:
                q = norm(z3.UDiv(bv(off, 64), BV(e, 64)))
                if not self.prove(st, eq(mul(q, e), off)):
                    raise Unsupported('misaligned element access')
                i = q
            bs = [z3.Select(node.arr, bv(add(i, k), 64)) for k in range(n // e)]
            return norm(bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs)))
        if n < e:
            if isinstance(off, int):
                i, r = divmod(off, e)
            else:
                c, d = linear(off)
                r = c % e
                i = exact_div(sub(off, r), e)
                if i is None:
                    raise Unsupported('sub-element access')
            if r + n > e:
                return self.split(st, node, off, n)
            return norm(z3.Extract(8 * (r + n) - 1, 8 * r, z3.Select(node.arr, bv(i, 64))))
        return self.split(st, node, off, n)

    def rd_map(self, st, node, off, n):
        """None: not in the map. else (value,)"""
        s, w, cnt = node.stride, node.width, node.count
        rel = sub(off, node.base)
        if n == w or n < w:
            j = exact_div(rel, s)
            sub_off = 0
            if j is None:
                # constant residue?
                c, d = linear(rel)
                if all(sgn(co, 64) % s == 0 for _, co in d.values()):
                    r = sgn(c, 64) % s
                    if r + n <= w:
                        sub_off = r
                        j = exact_div(sub(rel, r), s)
                    elif r >= w and r + n <= s:
                        return None
                    elif r < w:
                        return (self.split(st, node, off, n),)
                    else:
                        return (self.split(st, node, off, n),)
                else:
                    q = norm(z3.UDiv(bv(rel, 64), BV(s, 64))) if s > 0 else None
                    if q is not None and self.prove(st, eq(mul(q, s), rel)):
                        j = q
                    elif s > 0:
                        # disjoint from the whole span?
                        span = mul(cnt, s)
                        e = add(rel, n - 1)
                        if self.prove(st, band(bnot(ult(rel, span)), bnot(ult(e, span)))):
                            return None
                        raise Unsupported('misaligned map access')
                    else:
                        raise Unsupported('misaligned map access')
            elif n < w:
                sub_off = 0
            inr = ult(j, cnt)
            if self.prove(st, bnot(inr)):
                return None
            def get(s_):
                v = node.fn(self, s_, j)
                if n < w:
                    if isinstance(v, (Ptr, FnPtr)):
                        raise Unsupported('part of pointer in map')
                    if isinstance(v, int):
                        return (v >> (8 * sub_off)) & mask(8 * n)
                    return norm(z3.Extract(8 * (sub_off + n) - 1, 8 * sub_off, v))
                return v
            if self.prove(st, inr):
                return (get(st),)
            a = self.under(st, inr, get)
            b = self.under(st, bnot(inr), lambda s_: self.rd(s_, node.next, off, n))
            return (self.merge(st, inr, a, b, 8 * n),)
        return (self.split(st, node, off, n),)

    def store(self, st, p, n, v, what='write', loc=None, ordering='na', checked=True):
        if checked and not self.bound(st, p, n, what, loc):
            return
        o = p.obj
        if o.ro:
            self.fail(st, 'write to read-only object %s' % o.name, 'memory', loc)
        off = self.canon(st, o, p.off, n)
        for h in self.hooks_store:
            h(self, st, o, off, n, v, ordering)
        self.wr(st, o, off, n, v)

    def wr(self, st, o, off, n, v):
        if o.id in self.blind_drop:
            return
        node = st.mem[o.id]
        if isinstance(off, int):
            if type(node) is not Cells:
                node = Cells({}, node)
                st.mem[o.id] = node
            elif node.shared:
                node = Cells(dict(node.d), node.next)
                st.mem[o.id] = node
            d = node.d
            # cut overlapped cells
            for k in range(off - 63, off + n):
                c = d.get(k)
                if c is None or k + c[0] <= off:
                    continue
                if k == off and c[0] == n:
                    continue
                if k >= off and k + c[0] <= off + n:
                    del d[k]
                    continue
                val = c[1]
                if isinstance(val, (Ptr, FnPtr)):
                    val = self.p2i(val)
                del d[k]
                for b in range(c[0]):
                    if not (off <= k + b < off + n):
                        d[k + b] = (1, (val >> (8 * b)) & 255 if isinstance(val, int) else norm(z3.Extract(8 * b + 7, 8 * b, val)))
            d[off] = (n, v)
        else:
            if type(node) is W and node.size == n and self.same(st, node.off, off):
                node = node.next
            st.mem[o.id] = W(off, n, v, node)

    def region(self, st, o, off, ln, fn):
        """overlay [off,off+ln) with fn; handles the mirror"""
        if isinstance(ln, int) and ln == 0:
            return
        if o.mirror is not None:
            S = o.mirror
            off = self.canon(st, o, off, 1)
            end = add(off, ln)
            if self.prove(st, ule(end, S)):
                st.mem[o.id] = Region(off, ln, fn, st.mem[o.id])
                return
            first = minu(ln, sub(S, off))
            second = sub(ln, first)
            st.mem[o.id] = Region(off, first, fn, st.mem[o.id])
            st.mem[o.id] = Region(0, second, lambda ex, s, rel, n: fn(ex, s, add(rel, first), n), st.mem[o.id])
            return
        st.mem[o.id] = Region(off, ln, fn, st.mem[o.id])

    def memcpy(self, st, d, s, n, loc=None, move=False):
        if isinstance(n, int) and n == 0:
            return
        if self.prove(st, eq(n, 0)):
            return
        zero = None
        if not isinstance(n, int) and not self.prove(st, bnot(eq(n, 0))):
            zero = eq(n, 0)
            if self.feasible(st, zero) and (d.obj is None or s.obj is None):
                # null with zero length: fork-free treatment: require non-null only if n>0
                raise Unsupported('memcpy with maybe-zero length and null pointer')
        if not self.bound(st, d, n, 'memcpy destination', loc):
            return
        if not self.bound(st, s, n, 'memcpy source', loc):
            return
        if d.obj.ro:
            self.fail(st, 'write to read-only object', 'memory', loc)
        if d.obj.id in self.blind_drop:
            return
        if s.obj.id in self.blind_drop:
            raise Unsupported('copy out of an object whose contents are left open')
        so, snode = s.obj, st.mem[s.obj.id]
        self.copy_src = s
        if isinstance(snode, Cells):
            snode.shared = True
        if isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int) and n <= 512 and so.mirror is None and d.obj.mirror is None:
            # struct copy: keep cells (and pointers) intact
            done = self.copy_cells(st, d.obj, d.off, snode, s.off, n)
            if done:
                for h in self.hooks_load:
                    h(self, st, so, s.off, n, 'na')
                for h in self.hooks_store:
                    h(self, st, d.obj, d.off, n, None, 'na')
                return
        soff = s.off
        for h in self.hooks_load:
            h(self, st, so, soff, n, 'na')
        for h in self.hooks_store:
            h(self, st, d.obj, d.off, n, None, 'na')

        def fn(ex, st2, rel, sz):
            return ex.rd(st2, snode, ex.canon(st2, so, add(soff, rel), sz), sz)
        if so.mirror is not None and not self.prove(st, ule(add(self.canon(st, so, soff, 1), n), so.mirror)):
            pass
        self.region(st, d.obj, d.off, n, fn)

    def copy_cells(self, st, dobj, doff, snode, soff, n):
        """copy a small concrete range cell by cell when the top layer has them all or base is an array"""
        out = []
        pos = soff
        node = snode
        while pos < soff + n:
            c = None
            nd = node
            while isinstance(nd, Cells):
                c = nd.d.get(pos)
                if c is not None:
                    break
                blocked = any((x in nd.d and x + nd.d[x][0] > pos) for x in range(pos - 16, pos))
                if blocked:
                    return False
                nd = nd.next
            if c is None:
                out.append((pos, 1, None))
                pos += 1
                continue
            if pos + c[0] > soff + n:
                return False
            out.append((pos, c[0], c[1]))
            pos += c[0]
        # group missing bytes
        i = 0
        res = []
        while i < len(out):
            if out[i][2] is None:
                k = i
                while k < len(out) and out[k][2] is None:
                    k += 1
                start, ln = out[i][0], k - i
                p = start
                while p < start + ln:
                    for sz in (8, 4, 2, 1):
                        if p % sz == 0 and p + sz <= start + ln:
                            break
                    res.append((p, sz, self.rd(st, snode, p, sz)))
                    p += sz
                i = k
            else:
                res.append(out[i])
                i += 1
        for pos, sz, v in res:
            self.wr(st, dobj, doff + pos - soff, sz, v)
        return True

    def memset(self, st, d, b, n, loc=None):
        if isinstance(n, int) and n == 0:
            return
        if self.prove(st, eq(n, 0)):
            return
        if not self.bound(st, d, n, 'memset', loc):
            return
        if d.obj.ro:
            self.fail(st, 'write to read-only object', 'memory', loc)
        for h in self.hooks_store:
            h(self, st, d.obj, d.off, n, None, 'na')
        if isinstance(n, int) and n <= 4096 and isinstance(d.off, int) and d.obj.mirror is None and isinstance(b, int):
            node = st.mem[d.obj.id]
            p = d.off
            while p < d.off + n:
                for sz in (8, 4, 2, 1):
                    if p % sz == 0 and p + sz <= d.off + n:
                        break
                self.wr(st, d.obj, p, sz, int.from_bytes(bytes([b]) * sz, 'little'))
                p += sz
            return

        def fn(ex, st2, rel, sz):
            if isinstance(b, int):
                return int.from_bytes(bytes([b]) * sz, 'little')
            return norm(z3.Concat(*([b] * sz))) if sz > 1 else b
        self.region(st, d.obj, d.off, n, fn)

    # ---------- typed access ----------
    def load_ty(self, st, p, ty, loc=None, ordering='na'):
        k = ty.k
        if k == 'ptr':
            v = self.load(st, p, 8, loc=loc, ordering=ordering)
            if v is None or isinstance(v, (Ptr, FnPtr)):
                return v
            return self.i2p(st, v)
        if k in ('int', 'float', 'double'):
            n = ty.store
            v = self.load(st, p, n, loc=loc, ordering=ordering)
            if v is None:
                return None
            if isinstance(v, (Ptr, FnPtr)):
                v = self.p2i(v)
            if k == 'int' and ty.n < n * 8:
                if ty.n == 1:
                    return v & 1 if isinstance(v, int) else nbool(z3.Extract(0, 0, v) == BV(1, 1))
                return v & mask(ty.n) if isinstance(v, int) else norm(z3.Extract(ty.n - 1, 0, v))
            return v
        if k == 'struct':
            return [self.load_ty(st, self.padd(p, o), t, loc) for t, o in zip(ty.els, ty.offs)]
        if k in ('array', 'vector'):
            return [self.load_ty(st, self.padd(p, i * ty.el.size), ty.el, loc) for i in range(ty.n)]
        raise Unsupported('load of ' + k)

    def store_ty(self, st, p, ty, v, loc=None, ordering='na'):
        k = ty.k
        if k in ('ptr', 'float', 'double'):
            self.store(st, p, ty.size, v, loc=loc, ordering=ordering)
        elif k == 'int':
            n = ty.store
            if ty.n == 1:
                v = ite(tobool(v), 1, 0, 8 * n)
                v = light(v) if not isinstance(v, int) else v
            elif ty.n < n * 8 and not isinstance(v, int):
                v = norm(z3.ZeroExt(n * 8 - ty.n, v))
            self.store(st, p, n, v, loc=loc, ordering=ordering)
        elif k == 'struct':
            for t, o, x in zip(ty.els, ty.offs, v):
                self.store_ty(st, self.padd(p, o), t, x, loc)
        elif k in ('array', 'vector'):
            for i, x in enumerate(v):
                self.store_ty(st, self.padd(p, i * ty.el.size), ty.el, x, loc)
        else:
            raise Unsupported('store of ' + k)

    def padd(self, p, d):
        return Ptr(p.obj, add(p.off, d))

    def gep(self, st, ty, ops, tys):
        p = ops[0]
        if isinstance(p, FnPtr):
            raise Unsupported('gep on function')
        off = p.off
        t = ty
        for n, (i, it) in enumerate(zip(ops[1:], tys[1:])):
            if it.k != 'int':
                raise Unsupported('vector gep')
            if n == 0:
                sz = t.size
            elif t.k == 'struct':
                off = add(off, t.offs[i])
                t = t.els[i]
                continue
            else:
                t = t.el
                sz = t.size
            if it.n < 64:
                i = self.castop(st, 'sext', i, it, None, 64)
            off = add(off, mul(i, sz))
        return Ptr(p.obj, off)

    # ---------- arithmetic ----------
    def binop(self, st, op, a, b, w, inst):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            raise Unsupported('arithmetic on pointer')
        if w == 1 and op in ('and', 'or', 'xor', 'add', 'sub', 'mul'):
            x, y = tobool(a), tobool(b)
            if op in ('and', 'mul'):
                r = band(x, y)
            elif op == 'or':
                r = bor(x, y)
            else:
                if isinstance(x, bool):
                    r = bnot(y) if x else y
                elif isinstance(y, bool):
                    r = bnot(x) if y else x
                else:
                    r = z3.Xor(x, y)
            return int(r) if isinstance(r, bool) else r
        if z3.is_bool(a) if not isinstance(a, int) else False:
            a = bv(a, w)
        if z3.is_bool(b) if not isinstance(b, int) else False:
            b = bv(b, w)
        ca, cb = isc(a), isc(b)
        if op == 'add':
            return add(a, b, w)
        if op == 'sub':
            return sub(a, b, w)
        if op == 'mul':
            return mul(a, b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            nz = bnot(eq(b, 0, w))
            if nz is not True:
                self.check(st, nz, 'division by zero', 'ub', self.loc(inst))
                st.assume(nz)
        if ca and cb:
            m = mask(w)
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & m
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            if op == 'sdiv':
                return q & m
            if op == 'srem':
                return (x - q * y) & m
        x, y = bv(a, w), bv(b, w)
        if op == 'and':
            return norm(x & y)
        if op == 'or':
            return norm(x | y)
        if op == 'xor':
            return norm(x ^ y)
        if op == 'shl':
            return norm(x << y)
        if op == 'lshr':
            return norm(z3.LShR(x, y))
        if op == 'ashr':
            return norm(x >> y)
        if op == 'urem':
            if cb and b & (b - 1) == 0:
                return norm(x & BV(b - 1, w))
            if self.prove(st, ult(a, b, w)):
                return a
            if not cb:
                if self.prove(st, band(ult(sub(a, b, w), b, w), ule(b, a, w))):
                    return sub(a, b, w)
                if self.prove(st, bor(ult(a, b, w), ult(sub(a, b, w), b, w))):
                    return norm(z3.If(zb(ult(a, b, w)), x, x - y))
            return norm(z3.URem(x, y))
        if op == 'udiv':
            if cb and b & (b - 1) == 0:
                return norm(z3.LShR(x, BV(b.bit_length() - 1, w)))
            return norm(z3.UDiv(x, y))
        if op == 'sdiv':
            return norm(x / y)
        if op == 'srem':
            return norm(z3.SRem(x, y))
        raise Unsupported(op)

    FSORT = {'float': (8, 24, 32), 'double': (11, 53, 64)}

    def fpv(self, b, ty):
        """bits -> z3 FP term"""
        e, s, w = self.FSORT[ty.k]
        if isinstance(b, int):
            return z3.simplify(z3.fpBVToFP(BV(b, w), z3.FPSort(e, s)))
        return bits_to_fp(b, z3.FPSort(e, s))

    def fpb(self, f):
        f = z3.simplify(f)
        r = z3.fpToIEEEBV(f)
        if z3.is_fp_value(f):
            r2 = z3.simplify(r)
            if z3.is_bv_value(r2):
                return r2.as_long()
        return r

    def fop(self, st, op, args, ty):
        w = ty.size * 8
        if self.fp == 'fp':
            x = [self.fpv(a, ty) for a in args]
            R = z3.RNE()
            if op == 'fneg':
                return self.fpb(z3.fpNeg(x[0]))
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if f:
                return self.fpb(f(R, x[0], x[1]))
        if op in ('fadd', 'fmul'):
            a, b = bv(args[0], w), bv(args[1], w)
            if str(a.sexpr()) > str(b.sexpr()):
                a, b = b, a
            args = [a, b]
        if all(isc(a) for a in args) and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            R = z3.RNE()
            x = [self.fpv(a, ty) for a in args]
            if op == 'fneg':
                r = z3.simplify(z3.fpToIEEEBV(z3.fpNeg(x[0])))
            else:
                r = z3.simplify(z3.fpToIEEEBV({'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](R, x[0], x[1])))
            if z3.is_bv_value(r):
                return r.as_long()
        return self.uf('%s_%s' % (op, ty.k), args, [w] * len(args), w)

    def mentions_uf(self, fs):
        seen = set()
        todo = list(fs)
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().name() in self.ufnames:
                    return True
                todo.extend(t.children())
        return False

    def uf(self, name, args, ws, w):
        self.ufnames.add(name)
        f = z3.Function(name, *([bvs(x) for x in ws] + [bvs(w)]))
        return f(*[bv(a, x) for a, x in zip(args, ws)])

    def fcmp(self, st, pred, a, b, ty):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if self.fp == 'fp' or (isc(a) and isc(b)):
            x, y = self.fpv(a, ty), self.fpv(b, ty)
            uno = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y)), 'gt': lambda: z3.fpGT(x, y),
                    'ge': lambda: z3.fpGEQ(x, y), 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y)}
            if pred == 'ord':
                r = z3.Not(uno)
            elif pred == 'uno':
                r = uno
            elif pred[0] == 'o':
                r = z3.And(z3.Not(uno), base[pred[1:]]())
            else:
                r = z3.Or(uno, base[pred[1:]]())
            r = nbool(r)
            return int(r) if isinstance(r, bool) else r
        # uninterpreted, with the converse predicates normalised
        w = ty.size * 8
        neg = False
        inv = {'uge': 'olt', 'ugt': 'ole', 'ule': 'ogt', 'ult': 'oge', 'une': 'oeq', 'ueq': 'one', 'uno': 'ord'}
        if pred in inv:
            pred = inv[pred]
            neg = True
        if pred in ('ogt', 'oge'):
            a, b = b, a
            pred = {'ogt': 'olt', 'oge': 'ole'}[pred]
        a, b = bv(a, w), bv(b, w)
        if pred in ('oeq', 'one', 'ord') and str(a.sexpr()) > str(b.sexpr()):
            a, b = b, a
        self.ufnames.add('fcmp_%s_%s' % (pred, ty.k))
        f = z3.Function('fcmp_%s_%s' % (pred, ty.k), bvs(w), bvs(w), z3.BoolSort())
        r = f(a, b)
        return z3.Not(r) if neg else r

    def castop(self, st, op, v, fty, tty, tw=None):
        if fty.k == 'vector':
            return [self.castop(st, op, x, fty.el, tty.el) for x in v]
        if op in ('zext', 'sext', 'trunc'):
            fw = fty.n
            w = tw or tty.n
            if fw == 1:
                v = tobool(v)
                if op == 'zext':
                    return ite(v, 1, 0, w)
                return ite(v, mask(w), 0, w)
            if op == 'trunc':
                if w == 1:
                    return v & 1 if isc(v) else nbool(z3.Extract(0, 0, v) == BV(1, 1))
                return v & mask(w) if isc(v) else norm(z3.Extract(w - 1, 0, v))
            if isc(v):
                return v if op == 'zext' else sgn(v, fw) & mask(w)
            return norm(z3.ZeroExt(w - fw, v) if op == 'zext' else z3.SignExt(w - fw, v))
        if op == 'ptrtoint':
            r = self.p2i(v)
            return self.castop(st, 'trunc', r, None, tty) if tty.n < 64 else r
        if op == 'inttoptr':
            return self.i2p(st, v)
        if op in ('bitcast', 'addrspacecast'):
            return self.bitcast(v, fty, tty)
        if op in ('fptoui', 'fptosi'):
            fs = self.FSORT[fty.k]
            if self.fp == 'fp' or isc(v):
                x = self.fpv(v, fty)
                r = (z3.fpToUBV if op == 'fptoui' else z3.fpToSBV)(z3.RTZ(), x, bvs(tty.n))
                if self.fp == 'fp':
                    self.on_fptoint(st, x, tty.n, op)
                return norm(r)
            return self.uf('%s_%s_i%d' % (op, fty.k, tty.n), [v], [fs[2]], tty.n)
        if op in ('uitofp', 'sitofp'):
            e, s, w = self.FSORT[tty.k]
            fw = fty.n
            if fw == 1:
                v = ite(tobool(v), 1, 0, 8)
                fw = 8
                v = v if isc(v) else v
            if self.fp == 'fp' or isc(v):
                x = bv(v, fw)
                f = z3.fpToFPUnsigned(z3.RNE(), x, z3.FPSort(e, s)) if op == 'uitofp' else z3.fpSignedToFP(z3.RNE(), x, z3.FPSort(e, s))
                return self.fpb(f)
            if fw < 64:
                # the result depends on the number only, not on the width it is kept in
                v, op, fw = norm((z3.ZeroExt if op == 'uitofp' else z3.SignExt)(64 - fw, bv(v, fw))), 'sitofp', 64
            return self.uf('%s_i%d_%s' % (op, fw, tty.k), [v], [fw], w)
        if op in ('fpext', 'fptrunc'):
            if fty.k not in self.FSORT or tty.k not in self.FSORT:
                raise Unsupported('long double')
            e, s, w = self.FSORT[tty.k]
            if self.fp == 'fp' or isc(v):
                return self.fpb(z3.fpFPToFP(z3.RNE(), self.fpv(v, fty), z3.FPSort(e, s)))
            return self.uf('%s_%s_%s' % (op, fty.k, tty.k), [v], [self.FSORT[fty.k][2]], w)
        raise Unsupported(op)

    def on_fptoint(self, st, x, w, op):
        pass

    def bits_of(self, v, ty):
        if ty.k in ('int', 'float', 'double'):
            w = ty.n if ty.k == 'int' else ty.size * 8
            return [(v, w)]
        if ty.k == 'ptr':
            return [(self.p2i(v), 64)]
        if ty.k in ('vector', 'array'):
            r = []
            for x in v:
                r += self.bits_of(x, ty.el)
            return r
        raise Unsupported('bitcast')

    def bitcast(self, v, fty, tty):
        if fty.k == tty.k and fty.k == 'ptr':
            return v
        parts = self.bits_of(v, fty)
        tot = 0
        if all(isc(x) for x, w in parts):
            sh = 0
            for x, w in parts:
                tot |= x << sh
                sh += w
        else:
            ts = [bv(x, w) for x, w in parts]
            tot = norm(ts[0] if len(ts) == 1 else z3.Concat(*reversed(ts)))

        def take(lo, ty):
            w = ty.n if ty.k == 'int' else ty.size * 8
            if isc(tot):
                return (tot >> lo) & mask(w)
            return norm(z3.Extract(lo + w - 1, lo, tot))
        if tty.k in ('int', 'float', 'double'):
            return take(0, tty)
        if tty.k == 'vector':
            ew = tty.el.n if tty.el.k == 'int' else tty.el.size * 8
            return [take(i * ew, tty.el) for i in range(tty.n)]
        raise Unsupported('bitcast to ' + tty.k)

    def icmp(self, st, pred, a, b, ty):
        if ty.k == 'vector':
            return [self.icmp(st, pred, x, y, ty.el) for x, y in zip(a, b)]
        if ty.k == 'ptr' or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrcmp(st, pred, a, b)
        if ty.n == 1:
            x, y = tobool(a), tobool(b)
            if pred == 'eq':
                r = y if x is True else bnot(y) if x is False else x if y is True else bnot(x) if y is False else x == y
            elif pred == 'ne':
                r = bnot(y) if x is True else y if x is False else bnot(x) if y is True else x if y is False else x != y
            else:
                r = cmp(pred, bv(a, 1) if not isc(a) else a, bv(b, 1) if not isc(b) else b, 1)
        else:
            if not isc(a) and z3.is_bool(a):
                a = bv(a, ty.n)
            r = cmp(pred, a, b, ty.n)
        return int(r) if isinstance(r, bool) else r

    def ptrcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                r = a.name == b.name
            else:
                o = b if isinstance(a, FnPtr) else a
                if isinstance(o, Ptr) and o.obj is None and o.off == 0:
                    r = False
                else:
                    raise Unsupported('function pointer compare')
            return int(r if pred == 'eq' else not r)
        if a.obj is b.obj:
            r = cmp(pred if pred[0] != 's' else pred, a.off, b.off, 64)
            return int(r) if isinstance(r, bool) else r
        if pred in ('eq', 'ne'):
            x, y = a, b
            if x.obj is None and y.obj is not None:
                x, y = y, x
            if y.obj is None:
                if isinstance(y.off, int):
                    r = False   # object addresses are never 0 nor small constants / MAP_FAILED
                else:
                    r = None
            else:
                r = False
            if r is None:
                raise Unsupported('comparison of an object with a symbolic integer pointer')
            return int(r if pred == 'eq' else not r)
        if a.obj is None and b.obj is not None and isinstance(a.off, int) and a.off == 0:
            return int(pred in ('ult', 'ule'))
        if b.obj is None and a.obj is not None and isinstance(b.off, int) and b.off == 0:
            return int(pred in ('ugt', 'uge'))
        raise Unsupported('ordering of pointers to different objects')

    # ---------- execution ----------
    def loc(self, inst):
        if inst is None:
            return None
        try:
            t = self.cur_loc
        except AttributeError:
            t = None
        return '%s:%s' % (self.short(inst.bb.fn.name), inst.bb.id)

    _dem = {}

    def short(self, n):
        return n

    def push_call(self, st, fn, args, inst):
        if fn.decl:
            raise Unsupported('call of undefined external ' + fn.name)
        if len(st.frames) > 60:
            raise Unsupported('recursion depth')
        fr = Frame()
        fr.fn = fn
        blocks = fn.blocks
        fr.env = {}
        for a, v in zip(fn.args, args):
            fr.env[a.id] = v
        fr.bb, fr.prev, fr.ip, fr.inst = blocks[0], None, 0, inst
        fr.loops = {}
        st.frames.append(fr)
        self.stepped.add(fn.name)

    def call_function(self, st, name, args, stop=None):
        """run function `name` from st with args; returns list of final states (st.ret / st.status)"""
        fn = self.m.funcs[name]
        self.cur_fn = name
        base = len(st.frames)
        self.push_call(st, fn, args, None)
        return self.run([st], base, None)

    def run(self, work, base, stop):
        """run states until frame depth returns to `base` (or stop(state) says so)"""
        out = []
        work = list(work)
        seen = {}
        while work:
            st = work.pop()
            r = self.run1(st, base, stop, work, seen)
            if r is not None:
                out.append(r)
        return out

    def run1(self, st, base, stop, work, seen):
        while st.status == 'run':
            if len(st.frames) <= base:
                return st
            fr = st.frames[-1]
            if fr.ip == 0:
                if stop is not None and stop(st):
                    return st
                if self.blind and fr.prev is not None and self.joins(fr):
                    # conditions on open contents are dropped: different ways to the same point often differ in nothing
                    k = self.same_key(st)
                    if k in seen:
                        return None
                    seen[k] = st.fork()         # (keeps the terms of the key alive)
                r = self.enter_block(st, work)
                if r == 'dead':
                    return None
                if st.status != 'run':
                    break
                fr = st.frames[-1]
            inst = fr.bb.insts[fr.ip]
            self.total_steps += 1
            if self.total_steps > self.max_steps:
                raise Budget('step budget exhausted')
            if self.deadline and (self.total_steps & 1023) == 0 and time.time() > self.deadline:
                raise Budget('time budget exhausted')
            fr.ip += 1
            self.step(st, fr, inst, work)
        if st.status == 'dead':
            return None
        return st

    def loop_name(self, fn, loop):
        return '%s loop#%d' % (self.short(fn.name), loop.ordinal)

    def loops_of(self, fn):
        c = self.__dict__.setdefault('_loops', {})
        if fn.name not in c:
            import loops
            c[fn.name] = loops.natural_loops(fn)
        return c[fn.name]

    def enter_block(self, st, work):
        fr = st.frames[-1]
        L = self.loops_of(fr.fn)
        h = L.get(fr.bb)
        if h is None:
            return None
        import loops
        return loops.at_header(self, st, fr, h, work)

    def goto(self, st, fr, bb):
        """take the edge fr.bb -> bb, evaluating phis"""
        prev = fr.bb
        vals = []
        n = 0
        for i in bb.insts:
            if i.op != 'phi':
                break
            n += 1
            k = None
            for b, v in zip(i.x, i.ops):
                if b is prev:
                    k = v
                    break
            if k is None:
                raise Unsupported('phi without incoming edge')
            vals.append((i, self.val(st, k)))
        for i, v in vals:
            fr.env[i.id] = v
        fr.prev = prev
        fr.bb = bb
        fr.ip = 0

    def skip_phis(self, fr):
        n = 0
        for i in fr.bb.insts:
            if i.op != 'phi':
                break
            n += 1
        fr.ip = n

    def open_value(self, st, w):
        """any value (another one in every iteration of the loops around)"""
        n = 'blind!%d' % next(self.n)
        if st.idx:
            return z3.Function(n, *([bvs(64)] * len(st.idx) + [bvs(w)]))(*[bv(x, 64) for x in st.idx])
        return z3.BitVec(n, w)

    def is_blind(self, c):
        """depends on contents left open only (dropping such a branch condition over-approximates)"""
        if not self.blind:
            return False
        memo = self.__dict__.setdefault('_blind_memo', {})

        def go(t):
            # 0: no symbol, 1: open symbols only, 2: others
            i = t.get_id()
            r = memo.get(i)
            if r is not None:
                return r[0]
            v = 0
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if t.decl().name().startswith('blind!'):
                        memo[i] = (1, t)
                        return 1
                    v = 2
                for k in range(t.num_args()):
                    if v == 2:
                        break
                    v = max(v, go(t.arg(k)))
            else:
                v = 2
            memo[i] = (v, t)
            return v
        return go(c) == 1

    def live(self, fn):
        """block -> ids of the values needed after its phis"""
        c = self.__dict__.setdefault('_live', {})
        if fn.name in c:
            return c[fn.name]
        import loops
        use, defs, succ, phi_use = {}, {}, {}, {}

        def ids(i):
            out = [getattr(o, 'id', None) for o in i.ops]
            for x in (i.val, i.x):
                for o in (x if isinstance(x, (list, tuple)) else [x]):
                    out.append(getattr(o, 'id', None))
            return {x for x in out if x is not None}
        for b in fn.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op == 'phi':
                    d.add(i.id)
                    for pb, v in zip(i.x, i.ops):
                        phi_use.setdefault(pb, set()).add(getattr(v, 'id', None))
                    continue
                u |= ids(i) - d
                d.add(i.id)
            use[b], defs[b], succ[b] = u, d, loops.succs(b.insts[-1])
        phis = {b: {i.id for i in b.insts if i.op == 'phi'} for b in fn.blocks}
        inn = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set(phi_use.get(b, ()))
                for t in succ[b]:
                    out |= inn[t]
                n = use[b] | (out - defs[b])
                if n != inn[b]:
                    inn[b] = n
                    ch = True
        c[fn.name] = {b: inn[b] | {i for i in phis[b]} for b in fn.blocks}
        return c[fn.name]

    def joins(self, fr):
        c = self.__dict__.setdefault('_joins', {})
        if fr.fn.name not in c:
            import loops
            n = {}
            for b in fr.fn.blocks:
                for t in set(loops.succs(b.insts[-1])):
                    n[t] = n.get(t, 0) + 1
            c[fr.fn.name] = {b for b in n if n[b] > 1}
        return fr.bb in c[fr.fn.name]

    def same_key(self, st):
        def kv(v):
            if isinstance(v, (int, bool, str)) or v is None:
                return (type(v).__name__, v)
            if z3.is_expr(v):
                return ('z', v.get_id())
            if isinstance(v, Ptr):
                return ('p', None if v.obj is None else v.obj.id, kv(v.off))
            if isinstance(v, (list, tuple)):
                return tuple(kv(x) for x in v)
            return ('o', id(v))

        def km(n):
            if type(n) is Cells:
                return ('c', tuple(sorted((off, c[0], kv(c[1])) for off, c in n.d.items())), km(n.next))
            return id(n)
        fs = []
        for f in st.frames:
            lv = self.live(f.fn)[f.bb] if f is st.frames[-1] else None
            fs.append((f.fn.name, id(f.bb), f.ip, tuple((k, kv(v)) for k, v in sorted(f.env.items(), key=lambda x: str(x[0])) if lv is None or k in lv),
                       tuple(sorted((k, v) for k, v in f.loops.items()))))
        return (tuple(fs), tuple(sorted((o, km(n)) for o, n in st.mem.items())), tuple(sorted(st.pcids)),
                tuple(sorted((g, kv(v)) for g, v in st.ghost.items())), st.dead, st.status, len(st.events))

    def branch(self, st, fr, cond, bt, bf, work):
        c = tobool(cond)
        if isinstance(c, bool):
            self.goto(st, fr, bt if c else bf)
            return
        if bt is bf:
            self.goto(st, fr, bt)
            return
        if self.is_blind(c):
            s2 = st.fork()
            self.goto(s2, s2.frames[-1], bf)
            work.append(s2)
            self.goto(st, fr, bt)
            return
        ft = self.feasible(st, c)
        ff = self.feasible(st, bnot(c)) if ft else True
        if ft and ff:
            s2 = st.fork()
            s2.assume(nbool(z3.Not(c)))
            f2 = s2.frames[-1]
            self.goto(s2, f2, bf)
            work.append(s2)
            st.assume(c)
            self.goto(st, fr, bt)
        elif ft:
            self.goto(st, fr, bt)
        else:
            self.goto(st, fr, bf)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for o in fr.env.get('allocas', ()):
            st.dead = st.dead | {o.id}
        if not st.frames or fr.inst is None:
            st.ret = v
            if fr.inst is None:
                pass
            return
        up = st.frames[-1]
        i = fr.inst
        if i.ty.k != 'void':
            up.env[i.id] = v
        if i.op == 'invoke':
            self.goto(st, up, i.x[0])

    def throw(self, st):
        """propagate an exception up the call stack"""
        while st.frames:
            fr = st.frames[-1]
            bb = fr.bb
            i = fr.bb.insts[fr.ip - 1] if fr.ip > 0 else None
            if i is not None and i.op == 'invoke':
                self.goto(st, fr, i.x[1])
                return
            if fr.inst is None:
                break
            st.frames.pop()
        # out of the function under verification
        if st.frames:
            st.frames.pop()
        st.status = 'throw'

    def step(self, st, fr, i, work):
        op = i.op
        env = fr.env
        V = self.val
        if op == 'phi':
            return  # evaluated on the edge
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(st, i.ops[0]), V(st, i.ops[1])
            if i.ty.k == 'vector':
                env[i.id] = [self.binop(st, op, x, y, i.ty.el.n, i) for x, y in zip(a, b)]
            else:
                if self.nsw_check and op in ('add', 'sub', 'mul') and i.x and i.x[1]:
                    self.chk_nsw(st, op, a, b, i.ty.n, i)
                env[i.id] = self.binop(st, op, a, b, i.ty.n, i)
        elif op == 'load':
            p = V(st, i.ops[0])
            v = self.load_ty(st, p, i.ty, self.loc(i), i.x[0]) if not isinstance(p, FnPtr) else None
            if st.status != 'run':
                return
            env[i.id] = v
        elif op == 'store':
            v, p = V(st, i.ops[0]), V(st, i.ops[1])
            self.store_ty(st, p, i.ops[0].ty, v, self.loc(i), i.x[0])
        elif op == 'gep':
            ops = [V(st, o) for o in i.ops]
            env[i.id] = self.gep(st, i.x, ops, [o.ty for o in i.ops])
        elif op == 'icmp':
            env[i.id] = self.icmp(st, i.x, V(st, i.ops[0]), V(st, i.ops[1]), i.ops[0].ty)
        elif op == 'br':
            if not i.ops:
                self.goto(st, fr, i.x[0])
            else:
                self.branch(st, fr, V(st, i.ops[0]), i.x[0], i.x[1], work)
        elif op == 'call' or op == 'invoke':
            self.call(st, fr, i, work)
        elif op == 'ret':
            self.do_ret(st, V(st, i.ops[0]) if i.ops else None)
        elif op == 'select':
            c = V(st, i.ops[0])
            a, b = V(st, i.ops[1]), V(st, i.ops[2])
            env_set = self.select(st, fr, i, c, a, b, i.ty, work)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                    'fpext', 'fptrunc', 'addrspacecast'):
            env[i.id] = self.castop(st, op, V(st, i.ops[0]), i.ops[0].ty, i.ty)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            a = [V(st, o) for o in i.ops]
            if i.ty.k == 'vector':
                env[i.id] = [self.fop(st, op, list(x), i.ty.el) for x in zip(*a)]
            else:
                env[i.id] = self.fop(st, op, a, i.ty)
        elif op == 'fcmp':
            env[i.id] = self.fcmp(st, i.x, V(st, i.ops[0]), V(st, i.ops[1]), i.ops[0].ty)
        elif op == 'alloca':
            n = V(st, i.ops[0])
            if not isinstance(n, int):
                o = self.new_obj(st, 'stack_%s' % (i.name or 'vla'), mul(i.x.size, bv(n, 64), 64), 'vla', init='undef')
                env[i.id] = Ptr(o, 0)
                env['allocas'] = env.get('allocas', ()) + (o,)
                for h in getattr(self, 'on_vla', ()):
                    h(self, st, o, i.x.size, n)
                return
            o = self.new_obj(st, 'stack_%s' % (i.name or 'tmp'), i.x.size * n, 'stack', init='undef')
            if self.blind_bytes and i.x.k == 'array' and i.x.el.k == 'int' and i.x.el.n == 8:
                self.blind.add(o.id)
                self.blind_drop.add(o.id)
            env[i.id] = Ptr(o, 0)
            env['allocas'] = env.get('allocas', ()) + (o,)
        elif op == 'switch':
            self.switch(st, fr, i, work)
        elif op == 'extractvalue':
            v = V(st, i.ops[0])
            for k in i.x:
                v = v[k]
            env[i.id] = v
        elif op == 'insertvalue':
            v = V(st, i.ops[0])
            env[i.id] = self.insval(v, i.x, V(st, i.ops[1]))
        elif op == 'extractelement':
            k = V(st, i.ops[1])
            if not isinstance(k, int):
                raise Unsupported('symbolic extractelement')
            env[i.id] = V(st, i.ops[0])[k]
        elif op == 'insertelement':
            v = list(V(st, i.ops[0]))
            k = V(st, i.ops[2])
            if not isinstance(k, int):
                raise Unsupported('symbolic insertelement')
            v[k] = V(st, i.ops[1])
            env[i.id] = v
        elif op == 'shufflevector':
            a, b = V(st, i.ops[0]), V(st, i.ops[1])
            ab = list(a) + list(b)
            env[i.id] = [self.undef(st, i.ty.el) if k < 0 else ab[k] for k in i.x]
        elif op == 'freeze':
            env[i.id] = V(st, i.ops[0])
        elif op == 'atomicrmw':
            p = V(st, i.ops[0])
            v = V(st, i.ops[1])
            old = self.load_ty(st, p, i.ty, self.loc(i), i.x[1])
            if st.status != 'run':
                return
            w = i.ty.n
            k = i.x[0]
            if k in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(st, k, old, v, w, i)
            elif k == 'xchg':
                new = v
            else:
                raise Unsupported('atomicrmw ' + k)
            self.store_ty(st, p, i.ty, new, self.loc(i), i.x[1])
            env[i.id] = old
        elif op == 'cmpxchg':
            p, e, n = (V(st, o) for o in i.ops)
            ty = i.ty.els[0]
            old = self.load_ty(st, p, ty, self.loc(i), i.x)
            c = self.icmp(st, 'eq', old, e, ty)
            new = ite(tobool(c), n, old, ty.n)
            self.store_ty(st, p, ty, new, self.loc(i), i.x)
            env[i.id] = [old, c]
        elif op == 'fence':
            st.events.append(('fence', i.x))
        elif op == 'unreachable':
            if st.status == 'run':
                self.fail(st, 'unreachable code reached', 'ub', self.loc(i))
                st.status = 'ub'
        elif op == 'landingpad':
            env[i.id] = [Ptr(None, self.fresh(st, 'exc', 64)), self.fresh(st, 'sel', 32)]
        elif op == 'resume':
            # keep unwinding from this frame
            if fr.inst is None:
                st.frames.pop()
                st.status = 'throw'
            else:
                st.frames.pop()
                self.throw(st)
        else:
            raise Unsupported('instruction ' + op)

    def chk_nsw(self, st, op, a, b, w, i):
        if isc(a) and isc(b):
            x, y = sgn(a, w), sgn(b, w)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            ok = -(1 << (w - 1)) <= r < (1 << (w - 1))
            if ok:
                return
            c = False
        else:
            x, y = bv(a, w), bv(b, w)
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
        self.check(st, c, 'no signed overflow in %s' % op, 'ub', self.loc(i))

    def insval(self, v, path, x):
        v = list(v)
        if len(path) == 1:
            v[path[0]] = x
        else:
            v[path[0]] = self.insval(v[path[0]], path[1:], x)
        return v

    def select(self, st, fr, i, c, a, b, ty, work):
        env = fr.env
        if ty.k == 'vector' and isinstance(c, list):
            env[i.id] = [norm(bv(ite(tobool(x), p, q, ty.el.size * 8), ty.el.size * 8)) for x, p, q in zip(c, a, b)]
            return
        c = tobool(c)
        if isinstance(c, bool):
            env[i.id] = a if c else b
            return
        if ty.k == 'int' and ty.n == 1:
            x, y = tobool(a), tobool(b)
            r = bor(band(c, x), band(bnot(c), y))
            env[i.id] = int(r) if isinstance(r, bool) else nbool(r) if not isinstance(nbool(r), bool) else int(nbool(r))
            return
        if ty.k in ('int', 'float', 'double'):
            w = ty.n if ty.k == 'int' else ty.size * 8
            if isc(a) and isc(b) and a == b:
                env[i.id] = a
                return
            if self.is_blind(c):
                # (one symbol for the outcome when that is all open)
                env[i.id] = self.open_value(st, w) if all(isc(x) or self.is_blind(x) for x in (a, b)) and w > 1 else norm(z3.If(c, bv(a, w), bv(b, w)))
                return
            # prune when decided by the path
            if self.prove(st, c):
                env[i.id] = a
                return
            if self.prove(st, bnot(c)):
                env[i.id] = b
                return
            env[i.id] = norm(z3.If(c, bv(a, w), bv(b, w)))
            return
        if ty.k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None:
            env[i.id] = Ptr(a.obj, norm(bv(ite(c, a.off, b.off, 64), 64)))
            return
        # fork
        if self.is_blind(c):
            s2 = st.fork()
            s2.frames[-1].env[i.id] = b
            work.append(s2)
            env[i.id] = a
            return
        ft, ff = self.feasible(st, c), self.feasible(st, bnot(c))
        if ft and ff:
            s2 = st.fork()
            s2.assume(nbool(z3.Not(c)))
            s2.frames[-1].env[i.id] = b
            work.append(s2)
            st.assume(c)
            env[i.id] = a
        else:
            env[i.id] = a if ft else b

    def switch(self, st, fr, i, work):
        v = V = self.val(st, i.ops[0])
        w = i.ops[0].ty.n
        dflt, cases = i.x
        if isinstance(v, int):
            for c, bb in cases:
                if c.val == v:
                    self.goto(st, fr, bb)
                    return
            self.goto(st, fr, dflt)
            return
        if not isc(v) and z3.is_bool(v):
            v = bv(v, w)
        if not isc(v) and self.is_blind(v):
            bbs = list(dict.fromkeys([bb for _, bb in cases] + [dflt]))
            for bb in bbs[1:]:
                s2 = st.fork()
                self.goto(s2, s2.frames[-1], bb)
                work.append(s2)
            self.goto(st, fr, bbs[0])
            return
        opts = []
        groups = {}
        for c, bb in cases:
            groups.setdefault(bb, []).append(eq(v, c.val, w))
        for bb, cs in groups.items():
            opts.append((bor(*cs), bb))
        opts.append((band(*[bnot(eq(v, c.val, w)) for c, _ in cases]), dflt))
        live = [(c, bb) for c, bb in opts if self.feasible(st, c)]
        if not live:
            st.status = 'dead'
            return
        for c, bb in live[1:]:
            s2 = st.fork()
            s2.assume(c)
            self.goto(s2, s2.frames[-1], bb)
            work.append(s2)
        st.assume(live[0][0])
        self.goto(st, fr, live[0][1])

    # ---------- calls ----------
    def call(self, st, fr, i, work):
        cv = i.val
        if cv.kind == 'asm':
            # the code base only uses asm for pause/barriers
            if i.ty.k != 'void':
                raise Unsupported('asm with result')
            return
        args = [self.val(st, o) if o.kind != 'meta' else None for o in i.ops]
        tgt = cv.val if cv.kind == 'func' else None
        if tgt is None:
            f = self.val(st, cv)
            if isinstance(f, FnPtr):
                name = f.name
                tgt = f.fn or self.m.funcs.get(name)
            else:
                h = getattr(self, 'indirect', None)
                if h:
                    r = h(self, st, f, args, i)
                    return self.finish_call(st, i, r, work)
                raise Unsupported('indirect call through %r' % (f,))
        else:
            name = tgt.name
        h = self.contracts.get(name)
        if h is None:
            for pred, hh in self.contract_pred:
                if pred(name):
                    h = hh
                    break
        if h is None:
            h = self.builtins.get(name)
            if h is None and name.startswith('llvm.'):
                for k in self.intr:
                    if name.startswith(k):
                        h = self.intr[k]
                        break
                if h is None:
                    raise Unsupported('intrinsic ' + name)
        else:
            self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
        if h is not None:
            r = h(self, st, args, i)
            return self.finish_call(st, i, r, work)
        if tgt is None or tgt.decl:
            u = getattr(self, 'unknown_extern', None)
            if u:
                return self.finish_call(st, i, u(self, st, name, args, i), work)
            raise Unsupported('external function without contract: ' + name)
        self.push_call(st, tgt, args, i)

    def finish_call(self, st, i, r, work):
        """r: value | list of (state,value) wrapped in Multi"""
        if isinstance(r, Multi):
            for s2, v in r.items:
                if s2 is st:
                    continue
                self.after(s2, i, v)
                if s2.status != 'dead':
                    work.append(s2)
            for s2, v in r.items:
                if s2 is st:
                    self.after(st, i, v)
                    return
            st.status = 'dead'
            return
        self.after(st, i, r)

    def after(self, st, i, v):
        if st.status != 'run':
            return
        if isinstance(v, Throw):
            self.throw(st)
            return
        fr = st.frames[-1]
        if i.ty.k != 'void':
            fr.env[i.id] = v
        if i.op == 'invoke':
            self.goto(st, fr, i.x[0])

    # ---------- builtins ----------
    def init_builtins(self):
        import builtins_ir
        self.builtins, self.intr = builtins_ir.tables()


_prod = {}


def _is_product(t):
    return t.decl().kind() == z3.Z3_OP_BMUL and sum(1 for c in t.children() if not z3.is_bv_value(c)) > 1


def has_product(t):
    i = t.get_id()
    r = _prod.get(i)
    if r is None:
        if not z3.is_app(t):
            v = False
        else:
            v = _is_product(t) or any([has_product(c) for c in t.children()])
        r = _prod[i] = (v, t)
    return r[0]


_comm = {}


def comm_apps(t):
    """applications of operations that commute but are not interpreted"""
    i = t.get_id()
    r = _comm.get(i)
    if r is None:
        v = set()
        if z3.is_app(t):
            for c in t.children():
                v |= comm_apps(c)
            if t.num_args() == 2 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().split('_')[0] in ('fmul', 'fadd', 'product'):
                v = v | {Key(t)}
        r = _comm[i] = (frozenset(v), t)
    return r[0]


class Key:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return self.t.get_id()

    def __eq__(self, o):
        return self.t.eq(o.t)


def commutations(conds):
    apps = set()
    for c in conds:
        apps |= comm_apps(c)
    out = []
    for k in apps:
        f, (a, b) = k.t.decl(), k.t.children()
        if not a.eq(b):
            out.append(f(b, a) == k.t)
    return out


_abs = {}


def abstract_products(t):
    if not has_product(t):
        return t
    i = t.get_id()
    r = _abs.get(i)
    if r is None:
        ch = [abstract_products(c) for c in t.children()]
        if _is_product(t):
            w = t.size()
            f = z3.Function('product_%d' % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
            v = ch[0]
            for c in ch[1:]:
                lo, hi = (v, c) if v.get_id() <= c.get_id() else (c, v)
                v = f(lo, hi)
        else:
            v = t.decl()(*ch)
        r = _abs[i] = (v, t)
    return r[0]


class Multi:
    def __init__(self, items):
        self.items = items


class Throw:
    pass
