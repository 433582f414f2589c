"""C01-C05: the channel's operations"""
from runner import Unit, Native
import queue_spec as Q

MODS = {'queue': dict(src='queue.cpp', keep=[r'^(q.|s.|cf)__'])}
INST = [('qf', 'heap', None), ('qf', 'dbf', None), ('qp', 'heap', None), ('sf', 'stack', None), ('qf', 'heap', 'cf')]
MORE = [('qc', 'heap', None), ('qb', 'heap', None), ('qc', 'dbf', None), ('qp', 'dbf', None), ('sp', 'stack', None), ('qf', 'dbf', 'cf')]


def units(meths):
    def mk(tier):
        us = []
        for tag, mode, chan in INST + (MORE if tier == 'thorough' else [('sp', 'stack', None), ('qc', 'dbf', None)]):
            for m in meths:
                if chan and m not in Q.CH_METHODS:
                    continue
                roles = [None] if m not in Q.OBSERVE else ['producer', 'consumer']
                for r in roles:
                    us.append(Unit('%s/%s/%s%s' % (chan or tag, mode, m, '/' + r if r else ''), 'queue', Q.verify_method,
                                   (tag, mode, m), dict(chan=chan, role=r), timeout=150 if tier == 'quick' else 400))
        return us
    return mk


def tags(*want, memory=True):
    w = set(want)

    def f(o):
        return bool(set(o['tags']) & w) or (memory and o['kind'] in ('memory', 'assert', 'invariant') and not o['tags'])
    return f


ALL = Q.PRODUCER + Q.CONSUMER + Q.OBSERVE
ASSUME = ['capacities up to 2^40 elements; batch counts up to 2^40',
          'caller arguments do not alias the channel object or its storage',
          'exactly one producer and one consumer; each side runs its own calls sequentially',
          'commit counts do not exceed what is available / free (documented precondition)',
          'the peer is modelled by its own contract (rely): it only advances its own index within the elements/slots it owns',
          'element types: float, complex<float>, uint8_t, a 12-byte struct (heap); float x7 and 12-byte x1 (in place); other trivially copyable types behave like an element of the same size']
FUNCS = ['dro::SPSCQueue<T,N>::' + m.replace('_rv', '(T&&)') for m in ALL] + ['cler::Channel<T,N>::' + m for m in Q.CH_METHODS]
NQ = lambda tier: [Native('queue', 'queue.cpp', secs=(6, 60))]
NQM = lambda tier: [Native('queue', 'queue.cpp', secs=(4, 30)), Native('queue_mt', 'queue_mt.cpp', san='tsan', opt='-O1', secs=(8, 60))]


def get(pid):
    base = dict(modules=MODS, assumptions=ASSUME, functions=FUNCS, natives=NQ)
    if pid == 'C01':
        return dict(base, units=[units(ALL)], match=tags('fifo', 'inv', 'ret', 'own'))
    if pid == 'C02':
        return dict(base, units=[units(ALL)], match=tags('cap', 'live', 'inv'), natives=NQM)
    if pid == 'C03':
        return dict(base, units=[units(ALL)], match=tags('own', 'order', 'cache', memory=False), natives=NQM, alarm_inexact=True)
    if pid == 'C04':
        return dict(base, units=[units(['writeN', 'readN'])], match=tags('batch', 'fifo', 'inv', 'ret', 'own'),
                    functions=[f for f in FUNCS if f.endswith('writeN') or f.endswith('readN')])
    if pid == 'C05':
        ms = ['peek_write', 'peek_read', 'read_dbf', 'write_dbf', 'commit_read', 'commit_write', 'is_doubly_mapped']
        return dict(base, units=[units(ms)], match=tags('peek', 'dbf', 'inv', 'ret', 'own'),
                    functions=[f for f in FUNCS if f.split('::')[-1] in ms])
    return None
