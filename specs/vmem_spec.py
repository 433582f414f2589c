"""Contracts of the doubly mapped region (C07) and of channel construction/destruction (C06).

Operating-system contracts: every call may fail; ghost state records the descriptors, mappings, files, names and heap
blocks that are live.  Preconditions of the system calls (close a live descriptor, unmap exactly a live mapping, map only
over own address space, never past the end of the file) are obligations.
"""
import z3
from terms import *
from symex import *
from symex import Multi
import symex as S
import queue_spec as Q

def consts(t):
    """constants a term built from selects of constants (and bit operations on them) can take"""
    if isinstance(t, int):
        return {t}
    if z3.is_bv_value(t):
        return {t.as_long()}
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return consts(t.arg(1)) | consts(t.arg(2))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BOR:
        out = {0}
        for a in t.children():
            out = {x | y for x in out for y in consts(a)}
        return out
    raise Unsupported('value is not a choice of constants: %s' % t)


FAILED = Ptr(None, (1 << 64) - 1)
PAGE = 4096


class Res:
    """live resources; immutable, replaced in st.ghost on change"""
    def __init__(self, fds=(), maps=(), files=(), names=0):
        self.fds, self.maps, self.files, self.names = fds, maps, files, names

    def but(self, **k):
        d = dict(fds=self.fds, maps=self.maps, files=self.files, names=self.names)
        d.update(k)
        return Res(**d)


def R(st):
    return st.ghost['res']


def both(ex, st, okf, badf):
    """outcome split: success (okf) / failure (badf); each returns the value"""
    if badf is None:
        return okf(st)
    s2 = st.fork()
    a = okf(st)
    b = badf(s2)
    return Multi([(st, a), (s2, b)])


def fdname(v):
    return v


def install(ex, page=PAGE, few=False):
    """few: only descriptor creation and the reservation of address space can fail (the other failures lead to the same
    states and are covered where few is off)"""
    ex.page = page

    def new_fd(ex, st, named=False):
        def ok(s):
            fd = ex.fresh(s, 'fd', 32)
            s.assume(z3.And(fd >= 0, *[fd != f[0] for f in R(s).fds]))
            s.ghost['res'] = R(s).but(fds=R(s).fds + ((fd, 0),), names=R(s).names + (1 if named else 0))
            return fd
        return both(ex, st, ok, lambda s: mask(32)) if not (few and named) else mask(32)

    def find(st, fd):
        for k, f in enumerate(R(st).fds):
            if isinstance(fd, int):
                continue
            if f[0].eq(fd) or ex.prove(st, nbool(f[0] == fd)):
                return k
        return None

    def syscall(ex, st, a, i):
        if a[0] == 319:
            r = new_fd(ex, st)
            for s, v in r.items:
                pass
            return Multi([(s, v if isinstance(v, int) and False else (mask(64) if isinstance(v, int) else norm(z3.SignExt(32, v)))) for s, v in r.items])
        raise Unsupported('syscall %r' % (a[0],))

    def shm_open(ex, st, a, i):
        if isinstance(a[1], int) and not (a[1] & 0o100):
            return new_fd(ex, st)
        return new_fd(ex, st, named=True)

    def shm_unlink(ex, st, a, i):
        ex.check(st, R(st).names > 0, 'a shared-memory name is removed only if it was created here', 'resource', ex.loc(i), ('res',))
        st.ghost['res'] = R(st).but(names=max(0, R(st).names - 1))
        return 0

    def close(ex, st, a, i):
        k = find(st, a[0])
        ex.check(st, k is not None, 'close: the descriptor is open and owned', 'resource', ex.loc(i), ('res',))
        if k is not None:
            f = R(st).fds
            st.ghost['res'] = R(st).but(fds=f[:k] + f[k + 1:])
        return 0

    def ftruncate(ex, st, a, i):
        k = find(st, a[0])
        ex.check(st, k is not None, 'ftruncate: the descriptor is open and owned', 'resource', ex.loc(i), ('res',))
        if k is None:
            return mask(32)

        def ok(s):
            f = list(R(s).fds)
            f[k] = (f[k][0], a[1])
            s.ghost['res'] = R(s).but(fds=tuple(f))
            s.assume(z3.And(bv(a[1], 64) >= 0))
            return 0
        return both(ex, st, ok, None if few else lambda s: mask(32))

    def mmap(ex, st, a, i):
        addr, ln, prot, flags, fd, off = a
        fixed = isinstance(flags, int) and flags & 0x10
        anon = isinstance(flags, int) and flags & 0x20
        if not isinstance(flags, int):
            items = []
            for c in consts(flags):
                s2 = st.fork()
                cond = flags == BV(c, 32)
                if not ex.feasible(s2, cond):
                    continue
                s2.assume(cond)
                r = mmap(ex, s2, [addr, ln, prot, c, fd, off], i)
                items += r.items if isinstance(r, Multi) else [(s2, r)]
            ex.check(st, z3.Or(*[flags == BV(c, 32) for c in consts(flags)]), 'mmap flags are one of the enumerated values', 'pre')
            return Multi(items)
        if not fixed:
            if not anon:
                raise Unsupported('file mapping at a free address')

            def ok(s):
                o = ex.new_obj(s, 'map%d' % next(ex.n), ln, 'map', esz=1)
                s.ghost['res'] = R(s).but(maps=R(s).maps + ((o, ln, ()),))
                s.assume(z3.And(bv(ln, 64) != 0, z3.ULE(bv(ln, 64), BV(1 << 46, 64))))
                s.assume(z3.And(z3.UGE(ex.addr_of(o), BV(65536, 64)), z3.ULE(ex.addr_of(o), BV(1 << 46, 64))))
                return Ptr(o, 0)
            return both(ex, st, ok, lambda s: FAILED)
        m = [k for k, x in enumerate(R(st).maps) if isinstance(addr, Ptr) and x[0] is addr.obj]
        ex.check(st, bool(m), 'mmap(MAP_FIXED): the target is address space reserved here', 'resource', ex.loc(i), ('res',))
        if not m:
            return FAILED
        k = m[0]
        o, total, views = R(st).maps[k]
        ex.check(st, nbool(z3.And(z3.ULE(bv(addr.off, 64), bv(total, 64)), z3.ULE(bv(ln, 64), bv(total, 64) - bv(addr.off, 64)))),
                 'mmap(MAP_FIXED): the target lies inside the reserved range', 'resource', ex.loc(i), ('res',))
        ex.check(st, eq(norm(z3.URem(bv(addr.off, 64), BV(ex.page, 64))), 0), 'mmap(MAP_FIXED): page aligned', 'resource', ex.loc(i), ('res',))
        if not anon:
            f = find(st, fd)
            ex.check(st, f is not None, 'mmap: the descriptor is open and owned', 'resource', ex.loc(i), ('res',))
            if f is None:
                return FAILED
            flen = R(st).fds[f][1]
            ex.check(st, nbool(z3.ULE(bv(off, 64) + bv(ln, 64), bv(flen, 64))), 'mmap: the file is as long as the mapping', 'resource', ex.loc(i), ('res',))
            ex.check(st, (flags & 1) == 1, 'mmap: the view is shared', 'resource', ex.loc(i), ('res',))
            ex.check(st, prot == 3, 'mmap: the view is readable and writable', 'resource', ex.loc(i), ('res',))
        ident = R(st).fds[f][0] if not anon else None

        def ok(s):
            ms = list(R(s).maps)
            ms[k] = (o, total, views + ((addr.off, ln, ident, off),))
            s.ghost['res'] = R(s).but(maps=tuple(ms))
            return addr
        return both(ex, st, ok, None if few else lambda s: FAILED)

    def munmap(ex, st, a, i):
        p, ln = a
        m = [k for k, x in enumerate(R(st).maps) if isinstance(p, Ptr) and x[0] is p.obj]
        ex.check(st, bool(m), 'munmap: the range is a live mapping of this object', 'resource', ex.loc(i), ('res',))
        if not m:
            return mask(32)
        o, total, views = R(st).maps[m[0]]
        ex.check(st, eq(p.off, 0), 'munmap: starts at the mapping', 'resource', ex.loc(i), ('res',))
        ex.check(st, eq(ln, total), 'munmap: covers exactly the mapping', 'resource', ex.loc(i), ('res',))
        ms = R(st).maps
        st.ghost['res'] = R(st).but(maps=ms[:m[0]] + ms[m[0] + 1:])
        st.dead = st.dead | {o.id}
        return 0

    def fopen(ex, st, a, i):
        def ok(s):
            o = ex.new_obj(s, 'file%d' % next(ex.n), 216, 'file')
            s.ghost['res'] = R(s).but(files=R(s).files + (o,))
            return Ptr(o, 0)
        return both(ex, st, ok, lambda s: NULL)

    def isfile(ex, st, p, i, what):
        ex.check(st, isinstance(p, Ptr) and p.obj in R(st).files, '%s: the stream is open' % what, 'resource', ex.loc(i), ('res',))

    def fclose(ex, st, a, i):
        isfile(ex, st, a[0], i, 'fclose')
        st.ghost['res'] = R(st).but(files=tuple(x for x in R(st).files if x is not a[0].obj))
        return 0

    def fgets(ex, st, a, i):
        isfile(ex, st, a[2], i, 'fgets')
        n = a[1]
        if not isinstance(n, int):
            raise Unsupported('fgets with symbolic length')
        ex.bound(st, a[0], n, 'write', ex.loc(i))

        def ok(s):
            arr = ex.fresh_arr('line', 1)
            node = BaseArr(arr, 1)
            ex.region(s, a[0].obj, a[0].off, n, lambda e2, s2, rel, sz: e2.rd(s2, node, rel, sz))
            return a[0]
        return both(ex, st, ok, lambda s: NULL)

    def sscanf(ex, st, a, i):
        outs = a[2:]

        def ok(s):
            for p in outs:
                ex.store(s, p, 8, ex.fresh(s, 'scanned', 64))
            return len(outs)

        def bad(s):
            return 0
        return both(ex, st, ok, bad)

    def snprintf(ex, st, a, i):
        n = a[1]
        if not isinstance(n, int):
            raise Unsupported('snprintf with symbolic size')
        ex.bound(st, a[0], n, 'write', ex.loc(i))
        arr = ex.fresh_arr('text', 1)
        node = BaseArr(arr, 1)
        ex.region(st, a[0].obj, a[0].off, n, lambda e2, s2, rel, sz: e2.rd(s2, node, rel, sz))
        return ex.fresh(st, 'printed', 32)

    def sysconf(ex, st, a, i):
        if a[0] == 30:
            return ex.page
        v = ex.fresh(st, 'sysconf', 64)
        return v

    def anyint(w):
        return lambda ex, st, a, i: ex.fresh(st, 'any', w)
    errno = {}

    def errno_loc(ex, st, a, i):
        o = ex.new_obj(st, 'errno', 4)
        return Ptr(o, 0)
    for n, h in dict(syscall=syscall, shm_open=shm_open, shm_unlink=shm_unlink, close=close, ftruncate=ftruncate, ftruncate64=ftruncate, mmap=mmap, mmap64=mmap,
                     munmap=munmap, fopen=fopen, fopen64=fopen, fclose=fclose, fgets=fgets, snprintf=snprintf, sysconf=sysconf,
                     getpagesize=lambda e, s, a, i: ex.page, getpid=anyint(32), time=anyint(64)).items():
        ex.contracts[n] = h
    ex.contracts['sscanf'] = ex.contracts['__isoc99_sscanf'] = ex.contracts['__isoc23_sscanf'] = sscanf
    ex.contracts['_ZNSt6chrono3_V212steady_clock3nowEv'] = anyint(64)
    ex.contracts['_ZNSt6chrono3_V212system_clock3nowEv'] = anyint(64)
    ex.contracts['__errno_location'] = errno_loc
    ex.contracts['memfd_create'] = lambda ex, st, a, i: new_fd(ex, st)

    def inv(ex_, st, fr, loop, phase, st0=None):
        return []
    ex.unroll_cap = 64


def fresh_state():
    st = State()
    st.ghost['res'] = Res()
    st.ghost['heap'] = ()
    return st


def nothing_left(ex, s, what, heap=True):
    r = R(s)
    ex.check(s, not r.fds, what + ': every descriptor is closed', 'resource', None, ('res',))
    ex.check(s, not r.maps, what + ': every mapping is removed', 'resource', None, ('res',))
    ex.check(s, not r.files, what + ': every stream is closed', 'resource', None, ('res',))
    ex.check(s, r.names == 0, what + ': no shared-memory name is left behind', 'resource', None, ('res',))
    if heap:
        ex.check(s, all(o.id in s.dead for o in s.ghost['heap']), what + ': every heap block is freed', 'resource', None, ('res',))


def run(ex, st, name, *a, throws=False):
    out = []
    for s in ex.call_function(st, name, list(a)):
        if s.status == 'throw' and not throws:
            ex.check(s, False, name + ' does not throw', 'post', None, ('res',))
            continue
        if s.status in ('abort', 'dead'):
            continue
        out.append(s)
    return out


def huge_contract(ex, values=(0, 2 << 20, 1 << 30, 512 << 20, 64 << 10)):
    """get_huge_page_size: any answer, leaves nothing behind (verified by its own unit)"""
    def h(ex, st, a, i):
        # no system answers with an enormous page; zero: no huge pages
        v = ex.fresh(st, 'huge', 64)
        st.assume(z3.Or(*[v == BV(x, 64) for x in values]))
        return v if len(values) > 1 else values[0]
    ex.contract_pred.append((lambda n: 'get_huge_page_size' in n, h))


def mk_region(ex, st):
    d = ex.new_obj(st, 'alloc%d' % next(ex.n), Q.constant(ex, 'v__sizeof'))
    r = run(ex, st, 'v__ctor', Ptr(d, 0))
    return d, r


def region_ok(ex, s, d, n, what):
    """on success: two adjacent views of one file, at least n long"""
    P = ex.page
    r = R(s)
    for s2 in run(ex, s.fork(), 'v__valid', Ptr(d, 0)):
        ex.check(s2, nbool(zb(tobool(s2.ret))), what + ': reports itself valid', 'post', None, ('view',))
    for s2 in run(ex, s.fork(), 'v__size', Ptr(d, 0)):
        sz = s2.ret
        ex.check(s2, ule(n, sz), what + ': at least the requested size', 'post', None, ('view',))
        ex.check(s2, nbool(z3.ULT(bv(sz, 64) - bv(n, 64), BV(P, 64))), what + ': not more than the page rounding', 'post', None, ('view',))
        for s3 in run(ex, s2.fork(), 'v__data', Ptr(d, 0)):
            p = s3.ret
            mm = [x for x in R(s3).maps if isinstance(p, Ptr) and x[0] is p.obj]
            ex.check(s3, bool(mm), what + ': data() is the mapping', 'post', None, ('view',))
            if not mm:
                continue
            o, total, views = mm[0]
            ex.check(s3, eq(total, mul(sz, 2)), what + ': the mapping holds exactly two views', 'post', None, ('view',))
            ex.check(s3, eq(p.off, 0), what + ': data() is the start of the mapping', 'post', None, ('view',))
            for where in (0, 1):
                base = mul(sz, where)
                hit = [z3.And(bv(v[0], 64) == bv(base, 64), bv(v[1], 64) == bv(sz, 64), bv(v[3], 64) == 0) for v in views if v[2] is not None]
                ex.check(s3, nbool(z3.Or(*hit)) if hit else False, what + ': view %d maps the whole file' % (where + 1), 'post', None, ('view',))
            ex.check(s3, len({str(v[2]) for v in views}) == 1, what + ': both views are of the same file', 'post', None, ('view',))
            for s4 in run(ex, s3.fork(), 'v__second_mapping', Ptr(d, 0)):
                q = s4.ret
                ex.check(s4, isinstance(q, Ptr) and q.obj is p.obj and eq(q.off, sz), what + ': the second view starts where the first ends', 'post', None, ('view',))


def region_empty(ex, s, d, what):
    for s2 in run(ex, s.fork(), 'v__valid', Ptr(d, 0)):
        ex.check(s2, nbool(z3.Not(zb(tobool(s2.ret)))), what + ': reports itself not valid', 'post', None, ('view',))
    for f in ('v__data', 'v__second_mapping'):
        for s2 in run(ex, s.fork(), f, Ptr(d, 0)):
            p = s2.ret
            ex.check(s2, isinstance(p, Ptr) and p.obj is None and eq(p.off, 0), what + ': %s() is null' % f[3:], 'post', None, ('view',))
    for s2 in run(ex, s.fork(), 'v__size', Ptr(d, 0)):
        ex.check(s2, eq(s2.ret, 0), what + ': size() is zero', 'post', None, ('view',))


def verify_region(ex, op, page=PAGE, split=None):
    install(ex, page)
    # composite operations start from the states the create contract allows; the huge-page paths are covered by 'create'
    huge_contract(ex) if op == 'create' else huge_contract(ex, (0,))
    st = fresh_state()
    n = z3.BitVec('size', 64)
    st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, BV(1 << 62, 64))))
    d, ss = mk_region(ex, st)
    for s in ss:
        region_empty(ex, s, d, 'new')
        if op == 'default':
            for s2 in run(ex, s, 'v__dtor', Ptr(d, 0)):
                nothing_left(ex, s2, 'destroyed without use')
            continue
        for s1 in run(ex, s, 'v__create', Ptr(d, 0), n):
            good = None
            r = s1.ret
            if not isinstance(r, int):
                raise Unsupported('symbolic create result')
            if op == 'create':
                if r & 1:
                    region_ok(ex, s1, d, n, 'created')
                else:
                    nothing_left(ex, s1, 'failed create')
                    region_empty(ex, s1, d, 'failed create')
                for s2 in run(ex, s1, 'v__dtor', Ptr(d, 0)):
                    nothing_left(ex, s2, 'destroyed')
            elif op == 'recreate':
                m = z3.BitVec('size2', 64)
                s1.assume(z3.And(z3.UGE(m, 1), z3.ULE(m, BV(1 << 62, 64))))
                for s2 in run(ex, s1, 'v__create', Ptr(d, 0), m):
                    if s2.ret & 1:
                        region_ok(ex, s2, d, m, 'created again')
                        ex.check(s2, len(R(s2).maps) == 1 and len(R(s2).fds) <= 1, 'created again: the first region was released', 'resource', None, ('res',))
                    else:
                        nothing_left(ex, s2, 'failed second create')
                    for s3 in run(ex, s2, 'v__dtor', Ptr(d, 0)):
                        nothing_left(ex, s3, 'destroyed after second create')
            elif op == 'move':
                e = ex.new_obj(s1, 'moved', d.size)
                for s2 in run(ex, s1, 'v__move', Ptr(e, 0), Ptr(d, 0)):
                    region_empty(ex, s2, d, 'moved from')
                    region_ok(ex, s2, e, n, 'moved to') if r & 1 else region_empty(ex, s2, e, 'moved to')
                    for a, b in ((d, e), (e, d)):
                        for s3 in run(ex, s2.fork(), 'v__dtor', Ptr(a, 0)):
                            if a is d and r & 1:
                                region_ok(ex, s3, e, n, 'after the source is destroyed')
                            for s4 in run(ex, s3, 'v__dtor', Ptr(b, 0)):
                                nothing_left(ex, s4, 'both destroyed after a move')
            elif op == 'massign':
                e, es = mk_region(ex, s1)
                m = z3.BitVec('size2', 64)
                for s2 in es:
                    s2.assume(z3.And(z3.UGE(m, 1), z3.ULE(m, BV(1 << 62, 64))))
                    for s3 in run(ex, s2, 'v__create', Ptr(e, 0), m):
                        k = s3.ret & 1
                        for s4 in run(ex, s3, 'v__massign', Ptr(e, 0), Ptr(d, 0)):
                            region_empty(ex, s4, d, 'assigned from')
                            region_ok(ex, s4, e, n, 'assigned to') if r & 1 else region_empty(ex, s4, e, 'assigned to')
                            ex.check(s4, len(R(s4).maps) == (r & 1), 'assigned to: the former region was released', 'resource', None, ('res',))
                            for s5 in run(ex, s4, 'v__dtor', Ptr(d, 0)):
                                for s6 in run(ex, s5, 'v__dtor', Ptr(e, 0)):
                                    nothing_left(ex, s6, 'both destroyed after an assignment')
            elif op == 'selfassign':
                for s2 in run(ex, s1, 'v__massign', Ptr(d, 0), Ptr(d, 0)):
                    region_ok(ex, s2, d, n, 'self assigned') if r & 1 else region_empty(ex, s2, d, 'self assigned')
                    for s3 in run(ex, s2, 'v__dtor', Ptr(d, 0)):
                        nothing_left(ex, s3, 'destroyed after self assignment')


def verify_probe(ex):
    install(ex)
    st = fresh_state()
    for s in run(ex, st, 'p__supports'):
        nothing_left(ex, s, 'support probe')
        # and it is stable: asking again gives the same answer without system calls
        r = R(s)
        a = s.ret
        for s2 in run(ex, s, 'p__supports'):
            ex.check(s2, nbool(zb(tobool(s2.ret)) == zb(tobool(a))), 'asking again gives the same answer', 'post', None, ('res',))
            nothing_left(ex, s2, 'second support probe')


def verify_huge(ex):
    install(ex)
    f = [n for n, x in ex.m.funcs.items() if 'get_huge_page_size' in n and not x.decl]
    if not f:
        raise Unsupported('no huge-page helper of its own (inlined: covered by the callers)')
    st = fresh_state()
    o = [None]

    def inv(ex_, s, fr, loop, phase, st0=None):
        return []
    ex.loop_inv = inv
    for s in run(ex, st, f[0]):
        nothing_left(ex, s, 'huge page query')


# ---------------------------------------------------------------- construction (C06)
ELT = {'hf': 4, 'hb': 1, 'hp': 12, 'hn': 8, 'kf': 4, 'kp': 12, 'kn': 8, 'ch': 4, 'ck': 4}
FIXED = {'kf': 7, 'kp': 1, 'kn': 3, 'ck': 7}
BUILT, GONE = 1, 2


def verify_ctor(ex, tag, op='ctor'):
    install(ex, few=tag in ('hn', 'kn'))
    huge_contract(ex, (0,))
    sup = z3.BitVec('dm_supported', 1)
    ex.contract_pred.append((lambda n: 'supports_doubly_mapped_buffers' in n, lambda ex_, s, a, i: sup))
    e = ELT[tag]
    fixed = FIXED.get(tag)
    nontrivial = tag in ('hn', 'kn')
    P = PAGE

    def released(ex, st, obj, loc):
        """storage about to be released: every element in it has been destroyed"""
        info = st.ghost.get('slots')
        if not nontrivial or info is None or info[0] is not obj:
            return
        i = ex.fresh(st, 'slot', 64)
        v = ex.rd(st, st.mem[obj.id], add(info[1], add(mul(i, e), 4)), 4)
        ex.check(st, nbool(z3.Implies(z3.ULT(bv(i, 64), bv(info[2], 64)), bv(v, 32) == GONE)), 'every element is destroyed before its storage is released', 'post', loc, ('elem',))

    base_new, base_del = ex.builtins['_Znwm'], ex.builtins['_ZdlPv']

    def op_new(ex, st, a, i):
        s2 = st.fork()
        s2.ghost['refused'] = 1
        s2.ghost['thrown'] = 'bad_alloc'
        st.assume(z3.ULE(bv(a[0], 64), BV(1 << 46, 64)))
        r = base_new(ex, st, a, i)
        return Multi([(st, r), (s2, S.Throw())])

    def op_del(ex, st, a, i):
        if isinstance(a[0], Ptr) and a[0].obj is not None:
            released(ex, st, a[0].obj, ex.loc(i))
            if len(a) > 1 and a[0].obj.kind == 'heap':
                ex.check(st, eq(a[1], a[0].obj.size), 'storage is released with the size it was obtained with', 'resource', ex.loc(i), ('res',))
        return base_del(ex, st, a, i)
    for x in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t'):
        ex.contracts[x] = op_new
    for x in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t'):
        ex.contracts[x] = op_del
    base_unmap = ex.contracts['munmap']

    def munmap(ex, st, a, i):
        if isinstance(a[0], Ptr) and a[0].obj is not None:
            released(ex, st, a[0].obj, ex.loc(i))
        return base_unmap(ex, st, a, i)
    ex.contracts['munmap'] = munmap

    def nt_ctor(ex, st, a, i):
        p = a[0]
        ex.store(st, Ptr(p.obj, add(p.off, 4)), 4, BUILT)
        return None

    def nt_dtor(ex, st, a, i):
        p = a[0]
        x = ex.load(st, p, 4)
        y = ex.load(st, Ptr(p.obj, add(p.off, 4)), 4)
        ex.check(st, nbool(z3.And(bv(x, 32) == 0xC0FFEE, bv(y, 32) == BUILT)), 'only a constructed, not yet destroyed element is destroyed', 'post', ex.loc(i), ('elem',))
        ex.store(st, Ptr(p.obj, add(p.off, 4)), 4, GONE)
        return None
    ex.contracts['nt_ctor'], ex.contracts['nt_dtor'] = nt_ctor, nt_dtor

    st = fresh_state()
    n = z3.BitVec('n', 64)
    st.assume(z3.UGE(n, BV(1, 64)))
    size = Q.constant(ex, tag + '__sizeof')
    q = ex.new_obj(st, 'object', size, esz=1)
    if fixed:
        ex.loop_mode = lambda fn, loop: 'unroll'      # loops over the fixed array: constant trip count
    base = 0
    qt = tag
    if tag in ('ch', 'ck'):
        base = Q.offset(ex, tag + '__queue', None)
        qt = {'ch': 'hf', 'ck': 'kf'}[tag]
    qp = Ptr(q, base)
    args = [Ptr(q, 0)] + ([] if tag == 'ck' else [0 if fixed else n])
    step = (P * e) // __import__('math').gcd(P, e)
    for s in run(ex, st, tag + '__ctor', *args, throws=True):
        if s.status == 'throw':
            if fixed:
                ex.check(s, False, 'construction of a fixed-size channel does not throw', 'post', None, ('cap',))
                continue
            nothing_left(ex, s, 'construction refused')
            s.status = 'run'
            ex.check(s, nbool(z3.Or(z3.BoolVal(bool(s.ghost.get('refused'))), z3.UGE(n, BV((1 << 61) // e, 64)))), 'construction throws only when storage was refused or the capacity is impossible', 'post', None, ('cap',))
            continue
        C = None
        get = {}
        for f in ('ring', 'slot0', 'capacity', 'size', 'empty', 'space', 'dm'):
            rs = run(ex, s.fork(), qt + '__' + f, qp)
            if len(rs) != 1:
                # an accessor that branches: fold the outcomes one by one
                for r in rs:
                    check_state(ex, r, tag, qt, qp, f, r.ret)
                get[f] = None
            else:
                get[f] = rs[0].ret
        C = get['ring']
        ex.check(s, uge2(C, 2), 'the ring has at least two slots', 'post', None, ('cap',))
        if fixed:
            ex.check(s, eq(C, fixed + 1), 'a fixed-size channel has exactly its size', 'post', None, ('cap',))
            ex.check(s, nbool(bv(get['capacity'], 64) == fixed), 'capacity() is exactly the fixed size', 'post', None, ('cap',))
        else:
            ex.check(s, nbool(z3.ULT(n, bv(C, 64))), 'the ring has room for at least n elements', 'post', None, ('cap',))
            ex.check(s, nbool(bv(get['capacity'], 64) == bv(C, 64) - 1), 'capacity() is one less than the ring', 'post', None, ('cap',))
            small = z3.Or(sup == 0, z3.ULT(n, BV(P // e - 1, 64))) if P // e else sup == 0
            ex.check(s, nbool(z3.Implies(small, bv(C, 64) == n + 1)), 'the capacity is exactly n when no doubly mapped storage is possible or the buffer is smaller than a page', 'post', None, ('cap',))
        for f, v in (('size', 0), ('empty', 1)):
            if get[f] is not None:
                ex.check(s, nbool(bv(get[f], sort_of(get[f])) == v) if not isinstance(get[f], bool) else get[f] == bool(v), 'a new channel is empty (%s)' % f, 'post', None, ('cap',))
        if get['space'] is not None:
            ex.check(s, nbool(bv(get['space'], 64) == bv(C, 64) - 1), 'a new channel is all free space', 'post', None, ('cap',))
        fld = {}
        for f in ('w', 'r', 'rc', 'wc', 'cc'):
            fld[f] = ex.rd(s, s.mem[q.id], base + Q.offset(ex, qt + '__at_' + f, None), 8)
        for f in ('w', 'r', 'rc', 'wc'):
            ex.check(s, eq(fld[f], 0), 'index %s starts at the first slot' % f, 'post', None, ('inv',))
        ex.check(s, eq(fld['cc'], C), 'the cached ring size is the ring size', 'post', None, ('inv',))
        p = get['slot0']
        if not isinstance(p, Ptr) or p.obj is None:
            ex.check(s, False, 'storage is an object owned by the channel', 'post', None, ('stor',))
            continue
        dm = get['dm']
        isdm = dm if isinstance(dm, int) else None
        if isdm is None:
            raise Unsupported('doubly mapped flag is symbolic after construction')
        isdm &= 1
        if fixed:
            ex.check(s, p.obj is q and not isdm, 'fixed storage lies in the channel itself', 'post', None, ('stor',))
            ex.check(s, isinstance(p.off, int) and p.off >= base and p.off + (fixed + 1) * e <= size, 'fixed storage lies inside the channel', 'post', None, ('stor',))
            ks = [base + Q.offset(ex, qt + '__at_' + f, None) for f in ('w', 'r', 'rc', 'wc', 'cc')]
            ex.check(s, all(k + 8 <= p.off or k >= p.off + (fixed + 1) * e for k in ks), 'fixed storage does not overlap the indices', 'post', None, ('stor',))
        else:
            total = mul(C, e)
            ex.check(s, nbool(z3.And(z3.ULE(bv(C, 64), BV((1 << 62) // e, 64)))), 'the ring length in bytes does not overflow', 'post', None, ('stor',))
            ex.check(s, p.obj.id not in s.dead, 'storage is live', 'post', None, ('stor',))
            if isdm:
                m = [x for x in R(s).maps if x[0] is p.obj]
                ex.check(s, bool(m), 'doubly mapped storage is the mapping', 'post', None, ('stor',))
                if m:
                    o, tot, views = m[0]
                    ex.check(s, eq(tot, mul(total, 2)), 'the mapping is exactly two rings long', 'post', None, ('stor',))
                    ex.check(s, eq(p.off, 0), 'slot 0 is the start of the mapping', 'post', None, ('stor',))
                    for where in (0, 1):
                        hit = [z3.And(bv(v[0], 64) == bv(mul(total, where), 64), bv(v[1], 64) == bv(total, 64), bv(v[3], 64) == 0) for v in views if v[2] is not None]
                        ex.check(s, nbool(z3.Or(*hit)) if hit else False, 'view %d is exactly the ring' % (where + 1), 'post', None, ('stor',))
                    ex.check(s, len({str(v[2]) for v in views}) == 1, 'both views are the same memory', 'post', None, ('stor',))
            else:
                ex.check(s, p.obj.kind == 'heap', 'ordinary storage comes from the allocator', 'post', None, ('stor',))
                ex.check(s, nbool(z3.And(z3.ULE(bv(p.off, 64), bv(p.obj.size, 64)), z3.ULE(bv(total, 64), bv(p.obj.size, 64) - bv(p.off, 64)))), 'storage covers every slot of the ring', 'post', None, ('stor',))
                ex.check(s, not R(s).maps and not R(s).fds, 'ordinary storage leaves no mapping behind', 'resource', None, ('res',))
        if nontrivial:
            i = ex.fresh(s, 'slot', 64)
            x = ex.rd(s, s.mem[p.obj.id], add(p.off, mul(i, e)), 4)
            y = ex.rd(s, s.mem[p.obj.id], add(p.off, add(mul(i, e), 4)), 4)
            ex.check(s, nbool(z3.Implies(z3.ULT(bv(i, 64), bv(C, 64)), z3.And(bv(x, 32) == 0xC0FFEE, bv(y, 32) == BUILT))), 'every slot of the ring holds a constructed element', 'post', None, ('elem',))
            s.ghost['slots'] = (p.obj, p.off, C)
        for s2 in run(ex, s, tag + '__dtor', Ptr(q, 0)):
            nothing_left(ex, s2, 'destroyed')
            if nontrivial and fixed:
                released(ex, s2, p.obj, None)


def sort_of(v):
    return 1 if isinstance(v, bool) else v.size() if hasattr(v, 'size') and not z3.is_bool(v) else 64


def uge2(a, b):
    return nbool(z3.UGE(bv(a, 64), BV(b, 64)))


def check_state(ex, s, tag, qt, qp, f, v):
    """accessor outcome on a path of its own (an accessor that branches on a new channel)"""
    if f == 'size':
        ex.check(s, eq(v, 0), 'a new channel is empty (size)', 'post', None, ('cap',))
    elif f == 'space':
        pass
