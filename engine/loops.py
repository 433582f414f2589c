"""Loop discovery and inductive loop summaries.

A loop whose header decision is forced on every visit is unrolled (completely: the path condition excludes the
other branch).  Any other loop is cut: the state at the start of an arbitrary iteration k is over-approximated by
  - affine induction variables  init + c*k  (checked inductive),
  - memory cells / ghost values / phis that change: uninterpreted functions of k, constrained by the exact
    one-step recurrence between iterations k-1 and k (the continuation condition of iteration k-1 included),
  - array writes at affine addresses: a map node "for all j<k: cell(base+j*stride) = value(j)",
  - invariants supplied by the specification plus generated candidates, both proved (base and step) before use.
The body is then executed once from that state; its exits are the post-states of the loop.
"""
import itertools
import z3
from terms import *


class Loop:
    __slots__ = ('header', 'blocks', 'latches', 'ordinal')


def natural_loops(fn):
    blocks = fn.blocks
    succ = {}
    for b in blocks:
        t = b.insts[-1]
        if t.op == 'br':
            succ[b] = list(dict.fromkeys(t.x))
        elif t.op == 'switch':
            succ[b] = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
        elif t.op == 'invoke':
            succ[b] = list(t.x)
        else:
            succ[b] = []
    pred = {b: [] for b in blocks}
    for b in blocks:
        for s in succ[b]:
            pred[s].append(b)
    # dominators
    order = []
    seen = set()
    stack = [(blocks[0], iter(succ[blocks[0]]))]
    seen.add(blocks[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {blocks[0]: blocks[0]}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x is not y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) is not n:
                idom[b] = n
                changed = True

    def dom(a, b):
        while True:
            if a is b:
                return True
            if b is blocks[0]:
                return False
            b = idom[b]
    L = {}
    for b in order:
        for s in succ[b]:
            if s in num and dom(s, b):
                l = L.get(s)
                if l is None:
                    l = L[s] = Loop()
                    l.header = s
                    l.blocks = {s}
                    l.latches = []
                l.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x in l.blocks:
                        continue
                    l.blocks.add(x)
                    st.extend(p for p in pred[x] if p in num)
    for n, h in enumerate(sorted(L, key=lambda x: num[x])):
        L[h].ordinal = n
    return L


def at_header(ex, st, fr, loop, work):
    """called on every entry to a loop header; returns None to go on concretely"""
    key = (id(fr.fn), loop.header.idx)
    ent = fr.loops.get(key)
    fresh_entry = fr.prev not in loop.blocks
    if fresh_entry:
        ent = None
        mode = ex.loop_mode(fr.fn, loop) if ex.loop_mode else None
        if mode == 'cut':
            return summarise(ex, st, fr, loop, work)
        ent = ('unroll', 0, mode)
    elif ent is not None and ent[0] == 'cut':
        return None
    if ent is None:
        ent = ('unroll', 0, None)
    n = ent[1]
    if n > ex.max_unroll:
        from symex import Budget
        raise Budget('unroll limit in %s' % fr.fn.name)
    fr.loops[key] = ('unroll', n + 1, ent[2])
    if ent[2] == 'unroll':
        return None
    # forced?  look whether from here both leaving and continuing are possible
    d = decided(ex, st, fr, loop)
    if d == 'const' or (d and n < 24):
        return None
    return summarise(ex, st, fr, loop, work)


def decided(ex, st, fr, loop):
    """cheap test: evaluate the header block alone; forced if its terminator is decided, or if the header does not exit"""
    h = loop.header
    t = h.insts[-1]
    exits = [b for b in succs(t) if b not in loop.blocks]
    latch_exit = None
    probe = st.fork()
    pf = probe.frames[-1]
    n_ob = len(ex.obls)
    depth = len(st.frames)
    if exits:
        tgt = h
    else:
        # rotated / bottom-tested or exits inside: run one whole iteration and see whether it splits
        tgt = None
    saved_cur = (ex.total_steps,)
    hl, hs = ex.hooks_load, ex.hooks_store
    ex.hooks_load, ex.hooks_store = list(hl), list(hs)
    q = ex.quiet
    ex.quiet = q + 1
    try:
        if tgt is not None:
            # execute header instructions up to the terminator
            skip = 0
            pf.ip = 0
            while pf.ip < len(h.insts) - 1:
                i = h.insts[pf.ip]
                pf.ip += 1
                if i.op in ('call', 'invoke'):
                    # run nested
                    w = []
                    ex.step(probe, pf, i, w)
                    if w:
                        return False
                    if len(probe.frames) > depth:
                        r = ex.run([probe], depth, lambda s: False)
                        if len(r) != 1 or r[0].status != 'run':
                            return False
                        probe = r[0]
                        pf = probe.frames[-1]
                else:
                    w = []
                    ex.step(probe, pf, i, w)
                    if w or probe.status != 'run':
                        return False
            if t.op == 'br' and t.ops:
                c = tobool(ex.val(probe, t.ops[0]))
                if isinstance(c, bool):
                    # a flag carried around the loop says nothing about the number of iterations
                    return False if flag_phi(t.ops[0], h) else 'const'
                a = ex.feasible(probe, c)
                b = ex.feasible(probe, bnot(c))
                return not (a and b)
            if t.op == 'switch':
                return isinstance(ex.val(probe, t.ops[0]), int)
            return False
        # no exit at header
        res = iterate(ex, probe, loop, depth)
        return len(res) == 1
    finally:
        ex.quiet = q
        ex.hooks_load, ex.hooks_store = hl, hs
        del ex.obls[n_ob:]


def flag_phi(v, h):
    if v.kind != 'inst' or v not in h.insts:
        return False
    if v.op == 'phi':
        return v.ty.k == 'int' and v.ty.n <= 8
    if v.op in ('xor', 'and', 'or', 'select', 'freeze', 'trunc', 'zext') or (v.op == 'icmp' and v.ops[0].ty.k == 'int' and v.ops[0].ty.n <= 8):
        return any(flag_phi(o, h) for o in v.ops)
    return False


def succs(t):
    if t.op == 'br':
        return t.x
    if t.op == 'switch':
        return [t.x[0]] + [c[1] for c in t.x[1]]
    if t.op == 'invoke':
        return list(t.x)
    return []


def iterate(ex, st, loop, depth):
    """run one iteration from the header (phis already set). Returns list of (kind, state)"""
    fr = st.frames[-1]
    key = (id(fr.fn), loop.header.idx)
    fr.loops[key] = ('cut',)
    h = loop.header
    started = [False]

    def stop(s):
        if len(s.frames) < depth:
            return True
        if len(s.frames) == depth:
            f = s.frames[-1]
            if f.bb is h:
                return True
            if f.bb not in loop.blocks:
                return True
        return False
    # execute first block without triggering stop at header
    work = []
    out = []
    ex.skip_phis(fr)
    if fr.ip == 0:
        # header with no phis: avoid the ip==0 stop test by executing its first instruction now
        i = h.insts[0]
        fr.ip = 1
        ex.step(st, fr, i, work)
        if st.status == 'dead':
            pass
    init = [st] + work
    res = []
    for s in ex.run(init, depth - 1, stop):
        if s.status == 'dead':
            continue
        if s.status == 'run' and len(s.frames) == depth and s.frames[-1].bb is h and s.frames[-1].ip == 0:
            res.append(('back', s))
        else:
            res.append(('exit', s))
    return res


def iterate_cases(ex, st, loop, depth, multi=None):
    """one iteration, split into cases by the specification (each case may replace a value by the constant it assumes),
    and by the objects a loop-carried pointer may point into"""
    if multi:
        res = []
        for pick in itertools.product(*[[(pid, v) for v in vs] for pid, vs in multi.items()]):
            s = st.fork()
            for pid, v in pick:
                s.frames[-1].env[pid] = v
            res += iterate_cases(ex, s, loop, depth)
        return res
    h = getattr(ex, 'loop_cases', None)
    cases = h(ex, st, loop) if h else None
    if not cases:
        return iterate(ex, st, loop, depth)
    ex.check(st, nbool(z3.Or(*[zb(c) for c, _ in cases])), 'the case split of the loop is complete', 'invariant')
    res = []
    for c, f in cases:
        if not ex.feasible(st, nbool(c)):
            continue
        s = st.fork()
        s.assume(c)
        f(s)
        res += iterate(ex, s, loop, depth)
    return res


class Mod:
    """what a loop iteration may change"""

    def __init__(self):
        self.cells = {}    # (objid, off, size) -> obj
        self.maps = {}     # (objid, base-key, stride, width) -> (obj, base, stride, width)
        self.all = {}      # objid -> obj
        self.ghosts = set()

    def sig(self):
        return (frozenset(self.cells), frozenset(self.maps), frozenset(self.all), frozenset(self.ghosts))


def sort_w(v):
    return v.size() if not isinstance(v, int) and not z3.is_bool(v) else None


def summarise(ex, st0, fr0, loop, work):
    from symex import Ptr, FnPtr, Unsupported, Cells, MapN, Region, W, BaseArr, NULL
    depth = len(st0.frames)
    h = loop.header
    phis = []
    for i in h.insts:
        if i.op != 'phi':
            break
        phis.append(i)
    init = {p.id: fr0.env[p.id] for p in phis}
    lname = 'L%d' % next(ex.n)
    if st0.idx:
        # the number of completed inner iterations depends on the enclosing iteration
        k = z3.Function('k_%s' % lname, *([bvs(64)] * (len(st0.idx) + 1)))(*[bv(x, 64) for x in st0.idx])
    else:
        k = z3.BitVec('k_%s' % lname, 64)
    ks = st0.idx + (k,)
    ksort = [bvs(64)] * len(ks)
    maps_raw = {}
    maps_iter = {}

    def gfun(name, w):
        f = z3.Function('%s_%s' % (name, lname), *(ksort + [bvs(w)]))
        return f

    def app(f):
        return f(*[bv(x, 64) for x in ks])

    known_objs = dict((oid, True) for oid in st0.mem)
    mod = Mod()
    phi_kind = {p.id: stepping(ex, p, loop) or 'affine?' for p in phis}   # -> ('affine', c) | 'carried' | 'same'
    cell_kind = {}                               # key -> ('affine', c) | 'carried'
    ghost_kind = {}
    funs = {}
    maps_val = {}
    inv_keep = None

    def fun(key, w):
        if key not in funs:
            funs[key] = (gfun('g%d' % len(funs), w), w)
        return funs[key][0]

    def width_of(p):
        return p.ty.n if p.ty.k == 'int' else p.ty.size * 8

    multi_objs = {}                              # pointer phi -> {object id or None: (object, offset or None when it varies)}

    def choices():
        out = {}
        for pid, d in multi_objs.items():
            out[pid] = [Ptr(o, off if off is not None else app(fun(('pm', pid, oid), 64))) for oid, (o, off) in d.items()]
        return out

    def note_objects(backs):
        """pointers that go round the loop and may point into different objects"""
        ch = False
        for p in phis:
            if p.ty.k != 'ptr' or not isinstance(init[p.id], Ptr):
                continue
            d = multi_objs.get(p.id)
            seen = [init[p.id]] + [s.frames[-1].env[p.id] for s in backs]
            if any(not isinstance(v, Ptr) for v in seen):
                raise Unsupported('loop-carried function pointer')
            if d is None and all(v.obj is seen[0].obj for v in seen):
                if seen[0].obj is None and not all(isinstance(v.off, int) and v.off == seen[0].off for v in seen):
                    raise Unsupported('loop-carried number used as a pointer')
                continue
            if d is None:
                d = multi_objs[p.id] = {}
                phi_kind[p.id] = ('multi',)
                ch = True
            for v in seen:
                oid = None if v.obj is None else v.obj.id
                if z3.is_expr(v.off) and any(f in funs and v.off.eq(app(funs[f][0])) for f in (('p', p.id), ('pm', p.id, oid))):
                    if oid in d:
                        continue            # unchanged
                off = v.off if isinstance(v.off, int) else None
                if oid not in d:
                    d[oid] = (v.obj, off)
                    ch = True
                elif d[oid][1] is not None and d[oid][1] != off:
                    d[oid] = (v.obj, None)
                    ch = True
        return ch

    def build(final):
        st = st0.fork()
        st.idx = ks
        fr = st.frames[-1]
        facts = []
        # objects fully havocked
        for oid, o in mod.all.items():
            arr = gfun('hv_%d' % oid, 8) if False else None
            f = z3.Function('hv%d_%s' % (oid, lname), *(ksort + [bvs(64), bvs(8)]))

            def rfn(ex_, s_, rel, n, f=f):
                bs = [f(*[bv(x, 64) for x in ks], bv(add(rel, i), 64)) for i in range(n)]
                return norm(bs[0] if n == 1 else z3.Concat(*reversed(bs)))
            st.mem[oid] = Region(0, o.size if o.mirror is None else o.mirror, rfn, st.mem[oid])
        for key, (o, base, stride, width) in mod.maps.items():
            vf = maps_val.get(key)
            if vf is None:
                uf = z3.Function('m%d_%s_%d' % (o.id, lname, len(funs)), *(ksort + [bvs(8 * width)]))

                def vf(ex_, s_, j, uf=uf):
                    return uf(*[bv(x, 64) for x in st0.idx], bv(j, 64))
            st.mem[o.id] = MapN(base, stride, width, k, vf, st.mem[o.id])
        for key, o in mod.cells.items():
            oid, off, size = key
            v0 = ex.rd(st0, st0.mem[oid], off, size)
            kind = cell_kind.get(key)
            if kind is not None and kind[0] == 'affine' and not isinstance(v0, (Ptr, FnPtr)):
                v = add(v0, mul(kind[1], kext(k, size * 8), size * 8), size * 8)
            else:
                if isinstance(v0, (Ptr, FnPtr)):
                    if isinstance(v0, Ptr) and v0.obj is not None:
                        v = Ptr(v0.obj, app(fun(('c',) + key, 64)))
                    else:
                        raise Unsupported('loop-carried pointer cell')
                else:
                    v = app(fun(('c',) + key, size * 8))
            ex.wr(st, o, off, size, v)
        for g in mod.ghosts:
            v0 = st0.ghost.get(g)
            kind = ghost_kind.get(g)
            if isinstance(v0, int) or (z3.is_bv(v0) if v0 is not None else False):
                w = 64 if isinstance(v0, int) else v0.size()
                if kind is not None and kind[0] == 'affine':
                    st.ghost[g] = add(v0, mul(kind[1], kext(k, w), w), w)
                else:
                    st.ghost[g] = app(fun(('g', g), w))
            elif isinstance(v0, bool) or z3.is_bool(v0):
                f = z3.Function('gb_%s_%s' % (g, lname), *(ksort + [z3.BoolSort()]))
                st.ghost[g] = f(*[bv(x, 64) for x in ks])
            else:
                # non-numeric ghost: must be declared droppable by the spec
                if g in getattr(ex, 'ghost_drop', ()):
                    continue
                raise Unsupported('ghost %s modified in loop' % g)
        for p in phis:
            v0 = init[p.id]
            kd = phi_kind[p.id]
            if kd == 'same':
                fr.env[p.id] = v0
                continue
            if p.ty.k == 'ptr':
                if not isinstance(v0, Ptr):
                    raise Unsupported('loop-carried function pointer')
                if kd[0] == 'multi':
                    fr.env[p.id] = choices()[p.id][0]       # (each iteration is run for every choice)
                    continue
                if kd[0] == 'affine?':
                    fr.env[p.id] = v0 if v0.obj is None else Ptr(v0.obj, app(fun(('p', p.id), 64)))
                    continue
                if kd[0] == 'affine':
                    fr.env[p.id] = Ptr(v0.obj, add(v0.off, mul(kd[1], k)))
                elif v0.obj is None:
                    fr.env[p.id] = v0           # null on every way round (checked by note_objects)
                else:
                    fr.env[p.id] = Ptr(v0.obj, app(fun(('p', p.id), 64)))
                continue
            if p.ty.k in ('vector', 'struct', 'array'):
                el = p.ty.el
                fr.env[p.id] = [app(fun(('pv', p.id, n), el.n if el.k == 'int' else el.size * 8)) for n in range(p.ty.n)]
                continue
            w = width_of(p)
            if p.ty.k == 'int' and w == 1:
                f = z3.Function('pb%d_%s' % (p.id % 100000, lname), *(ksort + [z3.BoolSort()]))
                fr.env[p.id] = f(*[bv(x, 64) for x in ks])
            elif kd[0] == 'affine':
                fr.env[p.id] = add(v0, mul(kd[1], kext(k, w), w), w)
            else:
                fr.env[p.id] = app(fun(('p', p.id), w))
        return st

    def kext(kk, w):
        if w == 64:
            return kk
        if w < 64:
            return norm(z3.Extract(w - 1, 0, bv(kk, 64)))
        return norm(z3.ZeroExt(w - 64, bv(kk, 64)))

    def collect(res):
        """which pre-existing memory/ghosts did the iteration change?  returns changed?"""
        ch = False
        for kind, s in res:
            if kind != 'back':
                continue            # the leaving iteration is executed on top of the summary
            for oid, node in s.mem.items():
                if oid not in known_objs:
                    continue
                base = st_h.mem[oid]
                if node is base:
                    continue
                o = ex_obj(ex, s, oid)
                # walk new nodes down to base
                n = node
                hit = False
                while n is not None:
                    if n is base:
                        hit = True
                        break
                    if isinstance(n, Cells):
                        if isinstance(base, Cells) and n.next is base.next:
                            # compare dicts
                            for off, c in n.d.items():
                                b = base.d.get(off)
                                if b is not None and b[0] == c[0] and same_val(b[1], c[1]):
                                    continue
                                ch |= add_cell(o, off, c[0])
                            hit = True
                            break
                        for off, c in n.d.items():
                            ch |= add_cell(o, off, c[0])
                        n = n.next
                        continue
                    if isinstance(n, W):
                        ch |= add_w(o, n)
                        n = n.next
                        continue
                    if isinstance(n, (Region, MapN)):
                        ch |= add_all(o)
                        n = n.next
                        continue
                    break
                if not hit and not (isinstance(base, Cells) and n is base.next):
                    # base may have been replaced structurally (Cells copied): find by next-sharing
                    if n is not None and n is not base:
                        pass
            for g, v in s.ghost.items():
                b = st_h.ghost.get(g)
                if v is b or same_val(v, b):
                    continue
                if g not in mod.ghosts:
                    mod.ghosts.add(g)
                    ch = True
        return ch

    def same_val(a, b):
        if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
            return type(a) == type(b) and a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj is b.obj and same_val(a.off, b.off)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        return a is b or (isinstance(a, tuple) and isinstance(b, tuple) and a == b)

    def add_all(o):
        if o.id in mod.all:
            return False
        mod.all[o.id] = o
        for key in [x for x in mod.cells if x[0] == o.id]:
            del mod.cells[key]
        for key in [x for x in mod.maps if x[0] == o.id]:
            del mod.maps[key]
        return True

    def add_cell(o, off, size):
        if o.id in mod.all:
            return False
        for (oid, a, s) in list(mod.cells):
            if oid == o.id and not (a + s <= off or off + size <= a) and (a, s) != (off, size):
                return add_all(o)
        if (o.id, off, size) in mod.cells:
            return False
        mod.cells[(o.id, off, size)] = o
        return True

    def add_w(o, n):
        if o.id in mod.all:
            return False
        t = n.off
        c, d = linear(t)
        kid = k.get_id()
        if kid in d:
            stride = sgn(d[kid][1], 64)
            dd = {x: y for x, y in d.items() if x != kid}
            base = unlinear(c, dd)
            syms = symbols(base) if not isinstance(base, int) else set()
            if any(s.endswith('_' + lname) for s in syms) or any('!' in s and False for s in syms) or abs(stride) < n.size:
                return add_all(o)
            if stride < 0:
                return add_all(o)
            key = (o.id, base if isinstance(base, int) else base.sexpr(), stride, n.size)
            if key in mod.maps:
                return False
            # overlapping with other maps on the same object?
            for (oid, bk, s2, w2), (o2, b2, _, _) in list(mod.maps.items()):
                if oid != o.id:
                    continue
                dlt = sub(base, b2)
                if not isinstance(dlt, int) or s2 != stride:
                    return add_all(o)
                r = sgn(dlt, 64) % stride
                if not (r >= w2 and r + n.size <= stride):
                    return add_all(o)
                # shifted bases (a[i], a[i+1]) with same residue handled above by r==0 -> overlap
            mod.maps[key] = (o, base, stride, n.size)
            return True
        if attempt < 2:
            # induction variables are not classified yet: look again with their values known
            return True
        return add_all(o)

    res = None
    for attempt in range(24):
        st_h = build(False)
        n_ob = len(ex.obls)
        # cheap facts: one-step recurrence available after first pass
        sp = st_h.fork()
        fs = header_facts(ex, loop, k, inv_keep, None)
        for f in fs:
            sp.assume(f)
        extra = ex.loop_inv(ex, sp, sp.frames[-1], loop, 'assume', st0) if ex.loop_inv else None
        for f in (extra or []):
            sp.assume(f)
        bound_k(sp, k, phis, phi_kind, init)
        st_h = sp
        st_run = sp.fork()
        q0 = ex.quiet
        ex.quiet = q0 + 1
        try:
            res = iterate_cases(ex, st_run, loop, depth, choices())
        finally:
            ex.quiet = q0
        del ex.obls[n_ob:]
        changed = True if attempt == 0 else collect(res)
        # phi classification
        backs = [s for kd, s in res if kd == 'back']
        changed |= note_objects(backs)
        for p in phis:
            if p.id in multi_objs:
                continue
            if phi_kind[p.id] == 'carried' or (isinstance(phi_kind[p.id], tuple) and phi_kind[p.id][0] == 'carried'):
                continue
            cur = sp.frames[-1].env[p.id]
            nk = None
            if not backs:
                nk = 'same'
            elif p.ty.k in ('vector', 'struct', 'array') or (p.ty.k == 'int' and p.ty.n == 1):
                nk = ('carried',)
            else:
                ds = []
                for s in backs:
                    nx = s.frames[-1].env[p.id]
                    ds.append(delta(cur, nx, p))
                if all(x is not None for x in ds) and all(same_val(x, ds[0]) for x in ds) and loop_invariant(ds[0], lname):
                    nk = 'same' if isinstance(ds[0], int) and ds[0] == 0 else ('affine', ds[0])
                else:
                    nk = ('carried',)
            old = phi_kind[p.id]
            if old == 'affine?':
                phi_kind[p.id] = nk
                changed = True
            elif old != nk and not (isinstance(old, tuple) and isinstance(nk, tuple) and old[0] == nk[0] == 'affine' and same_val(old[1], nk[1])):
                phi_kind[p.id] = ('carried',)
                changed = True
        for key, o in mod.cells.items():
            c0 = ex.rd(st0, st0.mem[key[0]], key[1], key[2])
            if isinstance(c0, Ptr) and any(not isinstance(v, Ptr) or v.obj is not c0.obj for v in (ex.rd(s, s.mem[key[0]], key[1], key[2]) for s in backs)):
                raise Unsupported('loop-carried pointer cell into different objects')
            cur = ex.rd(sp, sp.mem[key[0]], key[1], key[2]) if not isinstance(sp.mem[key[0]], type(None)) else None
            vals = [ex.rd(s, s.mem[key[0]], key[1], key[2]) for s in backs]
            nk = ('carried',)
            if vals and not isinstance(cur, (Ptr, FnPtr)):
                ds = [sub(v, cur, key[2] * 8) if not isinstance(v, (Ptr, FnPtr)) else None for v in vals]
                if all(x is not None for x in ds) and all(same_val(x, ds[0]) for x in ds) and loop_invariant(ds[0], lname):
                    nk = ('affine', ds[0])
            changed |= upd_kind(cell_kind, key, nk, same_val)
        for g in mod.ghosts:
            cur = sp.ghost.get(g)
            vals = [s.ghost.get(g) for s in backs]
            nk = ('carried',)
            if vals and (isinstance(cur, int) or z3.is_bv(cur)) and not isinstance(cur, bool):
                w = 64 if isinstance(cur, int) else cur.size()
                ds = [sub(v, cur, w) for v in vals]
                if all(same_val(x, ds[0]) for x in ds) and loop_invariant(ds[0], lname):
                    nk = ('affine', ds[0])
            changed |= upd_kind(ghost_kind, g, nk, same_val)
        # map value functions
        newvals = {}
        for key, (o, base, stride, width) in mod.maps.items():
            if not backs:
                continue
            addr = add(base, mul(k, stride))
            terms = []
            okm = True
            for s in backs:
                v = ex.rd(s, s.mem[o.id], addr, width)
                terms.append((s, v))
            val = None
            guard_pcs = []
            for s, v in terms:
                if isinstance(v, (Ptr, FnPtr)):
                    okm = False
                    break
                g = path_delta(sp, s)
                guard_pcs.append(g)
                val = v if val is None else ite(g, v, val, 8 * width)
            if not okm:
                raise Unsupported('pointer stored in loop')
            newvals[key] = (val, bor(*guard_pcs))

        def mk(val, guard):
            vz = val
            def vf(ex_, s_, j):
                jj = bv(j, 64)
                if isinstance(vz, int):
                    return vz
                if guard is not True and guard is not False:
                    s_.assume(z3.Implies(z3.ULT(jj, k), z3.substitute(guard, (k, jj))))
                return norm(z3.substitute(vz, (k, jj)))
            return vf
        old_keys = set(maps_val)
        if set(newvals) != old_keys:
            changed = True
        else:
            for key in newvals:
                if not same_val(newvals[key][0], maps_raw[key]):
                    maps_iter[key] = maps_iter.get(key, 0) + 1
                    if maps_iter[key] < 3:
                        changed = True
        maps_raw = {key: v[0] for key, v in newvals.items()}
        # a map value that still mentions an unknown (uninterpreted) earlier map value stays as is: sound
        maps_val = {key: mk(v[0], v[1]) for key, v in newvals.items()}
        if not changed:
            # candidate invariants (Houdini), proved base+step
            if inv_keep is None:
                inv_keep = houdini(ex, st0, sp, backs, phis, init, mod, phi_kind, cell_kind, k, lname, depth, loop)
                if inv_keep:
                    continue
            break
    else:
        raise Unsupported('loop summary did not stabilise in %s' % fr0.fn.name)

    # supplied invariants: base and step
    if ex.loop_inv:
        base_inv = ex.loop_inv(ex, st0, st0.frames[-1], loop, 'base', st0)
        for n, f in enumerate(base_inv or []):
            ex.check(st0, f, 'loop invariant %d holds on entry (%s)' % (n, ex.loop_name(fr0.fn, loop)), 'invariant')
    # final run with all facts; obligations recorded
    st_h = build(True)
    st_h.inexact = True
    sp = st_h
    for f in header_facts(ex, loop, k, inv_keep, sp):
        sp.assume(f)
    for f in (ex.loop_inv(ex, sp, sp.frames[-1], loop, 'assume', st0) if ex.loop_inv else None) or []:
        sp.assume(f)
    bound_k(sp, k, phis, phi_kind, init)
    # one-step link between iteration k-1 and k
    link = one_step(ex, st0, sp, res, phis, phi_kind, init, mod, cell_kind, ghost_kind, k, funs, inv_keep)
    if link is not None:
        sp.assume(link)
    ex.summaries = getattr(ex, 'summaries', 0) + 1
    base_pc = list(sp.pc)
    res = iterate_cases(ex, sp.fork(), loop, depth, choices())
    if note_objects([s for kd, s in res if kd == 'back']):
        raise Unsupported('the objects a loop-carried pointer points into are not stable')
    for kd, s in res:
        if kd == 'back':
            if ex.loop_inv:
                for n, f in enumerate(ex.loop_inv(ex, s, s.frames[-1], loop, 'step', st0) or []):
                    ex.check(s, f, 'loop invariant %d preserved (%s)' % (n, ex.loop_name(s.frames[-1].fn, loop)), 'invariant')
    outs = []
    for kd, s in res:
        if kd == 'exit':
            s.idx = st0.idx
            outs.append(s)
    # values computed in the body at the exit iteration are terms over k: k is from now on an ordinary constant
    live = []
    for s in outs:
        r = ex.assume_valid(s)
        if r is False:
            continue
        live.append(s)
    if getattr(ex, 'on_backedge', None):
        for kd, s in res:
            if kd == 'back':
                ex.on_backedge(ex, s, loop, sp)
    work.extend(live)
    return 'dead'



def upd_kind(d, key, nk, same_val):
    old = d.get(key)
    if old is None:
        d[key] = nk
        return True
    if old[0] == 'carried':
        return False
    if nk[0] == 'affine' and same_val(nk[1], old[1]):
        return False
    d[key] = ('carried',)
    return True


def ex_obj(ex, s, oid):
    t = ex.__dict__.setdefault('_objtab', {})
    return t[oid]


def stepping(ex, p, loop):
    """first guess (checked by the passes): every back edge adds the same constant"""
    ds = set()
    for v, b in zip(p.ops, p.x):
        if b not in loop.blocks:
            continue
        op = getattr(v, 'op', None)
        if op == 'gep' and p.ty.k == 'ptr' and len(v.ops) == 2 and v.ops[0] is p and v.ops[1].kind == 'int':
            ds.add(sgn(v.ops[1].val, v.ops[1].ty.n) * v.x.size & mask(64))
        else:
            return None
    return ('affine', ds.pop()) if len(ds) == 1 and 0 not in ds else None


def delta(cur, nx, p):
    from symex import Ptr, FnPtr
    if p.ty.k == 'ptr':
        if isinstance(cur, Ptr) and isinstance(nx, Ptr) and cur.obj is nx.obj:
            return sub(nx.off, cur.off)
        return None
    if isinstance(cur, (Ptr, FnPtr)) or isinstance(nx, (Ptr, FnPtr)):
        return None
    w = p.ty.n if p.ty.k == 'int' else p.ty.size * 8
    if p.ty.k != 'int':
        return 0 if (not isinstance(cur, int) and not isinstance(nx, int) and cur.eq(nx)) or (isinstance(cur, int) and isinstance(nx, int) and cur == nx) else None
    return sub(nx, cur, w)


def loop_invariant(t, lname):
    if isinstance(t, int):
        return True
    return not any(s.endswith('_' + lname) for s in symbols(t)) and not _mentions_body(t, lname)


def _mentions_body(t, lname):
    # symbols created during the body are functions applied to k_<lname>
    return ('k_' + lname) in symbols(t)


def path_delta(sp, s):
    """conditions added to s since sp, as one conjunction"""
    base = sp.pcids
    cs = [c for c in s.pc if c.get_id() not in base]
    return band(*cs)


def header_facts(ex, loop, k, inv, sp):
    r = [z3.ULT(k, BV(1 << 52, 64))]
    if inv:
        r += list(inv)
    return r


def bound_k(sp, k, phis, phi_kind, init):
    """an nsw/nuw induction variable narrower than 64 bits cannot have wrapped"""
    for p in phis:
        kd = phi_kind[p.id]
        if isinstance(kd, tuple) and kd[0] == 'affine' and p.ty.k == 'int' and p.ty.n <= 32 and isinstance(kd[1], int) and 1 <= abs(sgn(kd[1], p.ty.n)) < 1 << 16:
            for v in p.ops:
                if v.kind == 'inst' and v.op == 'add' and v.x and (v.x[0] or v.x[1]):
                    sp.assume(z3.ULE(k, BV(mask(p.ty.n) // abs(sgn(kd[1], p.ty.n)), 64)))
                    return


def one_step(ex, st0, sp, res, phis, phi_kind, init, mod, cell_kind, ghost_kind, k, funs, inv):
    """k == 0 and carried == init   or   k > 0 and the iteration k-1 took some back edge"""
    from symex import Ptr
    zero = [k == BV(0, 64)]
    backs = [s for kd, s in res if kd == 'back']

    def carried():
        for p in phis:
            kd = phi_kind[p.id]
            if isinstance(kd, tuple) and kd[0] == 'carried':
                yield ('p', p)
        for key in mod.cells:
            if cell_kind.get(key, ('carried',))[0] == 'carried':
                yield ('c', key)
        for g in mod.ghosts:
            if ghost_kind.get(g, ('carried',))[0] == 'carried':
                yield ('g', g)

    def get(s, what, init_state=False):
        t, x = what
        if t == 'p':
            v = init[x.id] if init_state else s.frames[-1].env[x.id]
            return v, x.ty
        if t == 'c':
            return ex.rd(s, s.mem[x[0]], x[1], x[2]), None
        return s.ghost.get(x), None

    def eqv(a, b):
        if isinstance(a, list):
            return band(*[eqv(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return eqv(a.off, b.off)
            return True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if z3.is_bool(a) if not isinstance(a, int) else False:
            return a == zb(tobool(b))
        if z3.is_bool(b) if not isinstance(b, int) else False:
            return b == zb(tobool(a))
        if a is None or b is None:
            return True
        if not (isinstance(a, int) or z3.is_bv(a)) or not (isinstance(b, int) or z3.is_bv(b)):
            return True
        w = a.size() if not isinstance(a, int) else b.size()
        return eq(a, b, w)
    for c in carried():
        zero.append(zb(eqv(get(sp, c)[0], get(st0, c, True)[0])))
    alts = [z3.And(*zero)]
    km1 = norm(k - BV(1, 64))
    for s in backs:
        g = path_delta(sp, s)
        parts = [k != BV(0, 64)]
        if g is not True:
            parts.append(z3.substitute(zb(g), (k, km1)))
        for c in carried():
            nx = get(s, c)[0]
            cur = get(sp, c)[0]
            nxs = subst(nx, k, km1)
            parts.append(zb(eqv(cur, nxs)))
        alts.append(z3.And(*parts))
    return z3.Or(*alts) if len(alts) > 1 else alts[0]


def subst(v, k, j):
    from symex import Ptr
    if isinstance(v, list):
        return [subst(x, k, j) for x in v]
    if isinstance(v, Ptr):
        return Ptr(v.obj, subst(v.off, k, j))
    if z3.is_expr(v):
        return z3.substitute(v, (k, j))
    return v


def houdini(ex, st0, sp, backs, phis, init, mod, phi_kind, cell_kind, k, lname, depth, loop):
    """relations between carried integers that are inductive: x==x0, x<=x0, x>=x0, x+y const, x-y const"""
    from symex import Ptr
    ints = []
    for p in phis:
        kd = phi_kind[p.id]
        if p.ty.k == 'int' and p.ty.n in (32, 64) and isinstance(kd, tuple):
            ints.append((p.ty.n, lambda s, p=p: s.frames[-1].env[p.id], init[p.id], kd[0] == 'carried'))
        if p.ty.k == 'ptr' and isinstance(kd, tuple) and kd[0] != 'multi' and isinstance(init[p.id], Ptr) and init[p.id].obj is not None:
            ints.append((64, lambda s, p=p: s.frames[-1].env[p.id].off, init[p.id].off, kd[0] == 'carried'))
    for key in mod.cells:
        if key[2] in (4, 8):
            v0 = ex.rd(st0, st0.mem[key[0]], key[1], key[2])
            if isinstance(v0, Ptr):
                continue
            ints.append((key[2] * 8, lambda s, key=key: ex.rd(s, s.mem[key[0]], key[1], key[2]), v0,
                         cell_kind.get(key, ('carried',))[0] == 'carried'))
    cands = []
    for w, get, v0, car in ints:
        if not car:
            continue
        cands.append(lambda s, get=get, v0=v0, w=w: eq(get(s), v0, w))
        cands.append(lambda s, get=get, v0=v0, w=w: ule(get(s), v0, w))
        cands.append(lambda s, get=get, v0=v0, w=w: ule(v0, get(s), w))
    for a, b in itertools.combinations(ints, 2):
        if a[0] != b[0] or not (a[3] or b[3]):
            continue
        w = a[0]
        c1 = add(a[2], b[2], w)
        c2 = sub(a[2], b[2], w)
        cands.append(lambda s, a=a, b=b, c=c1, w=w: eq(add(a[1](s), b[1](s), w), c, w))
        cands.append(lambda s, a=a, b=b, c=c2, w=w: eq(sub(a[1](s), b[1](s), w), c, w))
    cands = end_pointer_cands(ex, sp, loop, phis, phi_kind, init) + cands[:60]
    ngen = len(cands)
    cands += [c for c in (ex.loop_cands(ex, st0, sp, loop) if getattr(ex, 'loop_cands', None) else [])]
    custom = {id(c) for c in cands[ngen:]}
    if not cands:
        return []
    # base
    keep = []
    for c in cands:
        f = c(sp)
        if f is True:
            continue
        keep.append((c, f))
    if not keep:
        return []
    # candidates hold initially by construction (for custom ones check)
    good = []
    alive = []
    for c, f in keep:
        try:
            f0 = c(_InitView(st0, init, ex))
        except Exception:
            continue
        if not ex.prove(st0, f0):
            # while an enclosing loop is still being explored its invariant is not known: keep 'if it held on entry, it holds'
            if not (ex.quiet and st0.idx and id(c) in custom) or isinstance(f0, bool) or getattr(c, 'implied_by', None) is not None:
                continue
            c = (lambda s, c=c, f0=f0: bimp(zb(f0), zb(c(s))))      # (never an 'implied_by' target: those fall away)
            f = c(sp)
        good.append((c, f))
        alive.append(c)
    # greatest inductive subset: every candidate kept is preserved by every iteration path, assuming the kept ones
    changed = True
    rounds = 0
    steps = {}
    while changed and good:
        rounds += 1
        if rounds > 40:
            return []
        changed = False
        for n, s in enumerate(backs):
            if not good:
                break
            s2 = s.fork()
            for _, f in good:
                s2.assume(zb(f))
            keep = []
            kept = {id(c) for c, _ in good}
            for c, f in good:
                b = getattr(c, 'implied_by', None)
                if b is not None and id(b) in kept:
                    keep.append((c, f))         # follows from the candidate it weakens
                    continue
                g = steps.get((n, id(c)))
                if g is None:
                    try:
                        g = c(s)
                    except z3.Z3Exception:
                        g = False               # (a number became a pointer, say)
                    steps[(n, id(c))] = g
                if ex.prove(s2, g, timeout=1500):
                    keep.append((c, f))
                else:
                    kept.discard(id(c))
            if len(keep) != len(good):
                changed = True
                good = keep
    kept = {id(c) for c, _ in good}
    return [zb(f) for c, f in good if getattr(c, 'implied_by', None) is None or id(c.implied_by) not in kept]


def end_pointer_cands(ex, sp, loop, phis, phi_kind, init):
    """loops that end with p == end: p never passes the end"""
    from symex import Ptr
    aff = {p.id: p for p in phis if phi_kind[p.id] != 'same' and phi_kind[p.id][0] == 'affine'}
    inside = {i.id for b in loop.blocks for i in b.insts if getattr(i, 'id', None) is not None}
    env = sp.frames[-1].env
    out = []

    def val(v, w):
        if isinstance(v, Ptr):
            return v.off
        return v
    for b in loop.blocks:
        for i in b.insts:
            if i.op != 'icmp' or i.x not in ('eq', 'ne'):
                continue
            for x, e in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                if getattr(e, 'id', None) in inside:
                    continue
                p = aff.get(getattr(x, 'id', None))
                strict = False
                if p is None and getattr(x, 'op', None) in ('gep', 'getelementptr', 'add') and getattr(x.ops[0], 'id', None) in aff:
                    p, strict = aff[x.ops[0].id], True
                if p is None:
                    continue
                try:
                    ev = ex.val(sp, e)
                except Exception:
                    continue
                w = 64 if p.ty.k == 'ptr' else p.ty.n
                if isinstance(ev, Ptr):
                    v0 = init[p.id]
                    if not isinstance(v0, Ptr) or v0.obj is not ev.obj:
                        continue
                ev = val(ev, w)
                if strict:
                    out.append(lambda s, p=p, ev=ev, w=w: ult(val(s.frames[-1].env[p.id], w), ev, w))
                step = phi_kind[p.id][1]
                if isinstance(step, int) and sgn(step, w) < 0:
                    # counting down: the distance walked never exceeds the distance to the end
                    v0 = val(init[p.id], w)
                    cmpf = ult if strict else ule
                    out.append(lambda s, p=p, ev=ev, v0=v0, w=w, f=cmpf: f(sub(v0, val(s.frames[-1].env[p.id], w), w), sub(v0, ev, w), w))
                    continue
                out.append(lambda s, p=p, ev=ev, w=w: ule(val(s.frames[-1].env[p.id], w), ev, w))
    return out


class _InitView:
    def __init__(self, st0, init, ex):
        self.mem = st0.mem
        self.pc = st0.pc
        self.ghost = st0.ghost
        self.frames = [_F(init)]


class _F:
    def __init__(self, env):
        self.env = env
