"""C14 sample conservation, C15 arithmetic of the stream blocks"""
from runner import Unit, Native
import blocks_spec as B
from symex import Ptr

KEEP = [r'^_ZNK?4cler7ChannelI', r'normal_distribution', r'mersenne_twister', r'random_device', r'__(sizeof|ref)$']
MODS = {'blocks': dict(src='blocks.cpp', keep=KEEP)}


def gp(m):
    return Ptr(m.args['gain'], 0)


SPEC = {}
for k, n in (('f', 4), ('i', 4), ('c', 8)):
    SPEC['gain_' + k] = (('gain_' + k, (('gain', n), 'n'), 1, k), dict(value=B.by_ref('gain_' + k, gp)))
    for j in (2, 3):
        SPEC['add_%s/%d' % (k, j)] = (('add_' + k, (j, 'n'), 1, k), dict(value=B.sum_f))
for j in (1, 2, 3):
    SPEC['fan%d_f' % j] = (('fan%d_f' % j, ('n',), j, 'f'), dict(value=B.same, idle='ok'))
SPEC['fan2_d'] = (('fan2_d', ('n',), 2, 'z'), dict(value=B.same, idle='ok'))
SPEC['fan2_b'] = (('fan2_b', ('n',), 2, 'h'), dict(value=B.same, idle='ok'))
for k, t in (('f', 'f'), ('d', 'z'), ('b', 'h')):
    SPEC['thru_' + k] = (('thru_' + k, ('n',), 1, t), dict(value=B.same, idle='ok'))
for k in 'fc':
    SPEC['throt_' + k] = (('throt_' + k, ('s', 'n'), 1, k), dict(value=B.same))
for mode in (0, 1):
    SPEC['demux/%d' % mode] = (('demux', (mode, 'n'), 2, 'f'), dict(value=B.by_ref('demux', mode)))
SPEC['shift'] = (('shift', ('df', 'dr', 'n'), 1, 'c'), dict())
SPEC['awgn_f'] = (('awgn_f', ('f', 'n'), 1, 'f'), dict())
SPEC['awgn_c'] = (('awgn_c', ('f', 'n'), 1, 'c'), dict())
SPEC['null_f'] = (('null_f', ('n',), 0, 'f'), dict(idle='ok'))
SPEC['nullcb_f'] = (('nullcb_f', (('ctx', 8), 'n'), 0, 'f'), dict(idle='callback', value=B.taken))
for k in 'fc':
    SPEC['cw_' + k] = (('cw_' + k, ('fa', 'ff', 's'), 1, k), dict())
    SPEC['chirp_' + k] = (('chirp_' + k, ('fa', 'ff', 'fg', 's', 'fd'), 1, k), dict())
WHERE = {'gain': 'GainBlock<%s>', 'add': 'AddBlock<%s>', 'fan': 'FanoutBlock<%s>', 'thru': 'ThroughputBlock<%s>', 'throt': 'ThrottleBlock<%s>', 'demux': 'ComplexToMagPhaseBlock', 'shift': 'FrequencyShiftBlock',
         'awgn': 'NoiseAWGNBlock<%s>', 'null': 'SinkNullBlock<%s>', 'nullcb': 'SinkNullBlock<%s>', 'cw': 'SourceCWBlock<%s>', 'chirp': 'SourceChirpBlock<%s>'}
TYPE = {'f': 'float', 'i': 'int', 'c': 'std::complex<float>', 'd': 'std::complex<double>', 'b': 'unsigned char'}
ASSUME = ['the channel operations are used through their contracts, proved for the real channel under C01, C02, C04 and C05: occupancy and space only grow from outside between two looks, a batch moves the exact minimum, a zero-copy view is contiguous',
          'the peers of a channel act at any point between two operations of the block',
          'the number of inputs of the sum (2, 3) and of outputs of the fan-out (1, 2, 3) is fixed per verification; element types are those listed',
          'buffer sizes up to 2^40; a construction that throws is refused and claims nothing',
          'float arithmetic and libm are uninterpreted (the block and the documented function are compared as the same operations on the same bits), or decided in IEEE-754 single precision where the terms differ',
          'clocks, sleeping and the random generator are contracts: any value, no other effect',
          'the termination of a step is not proved except for the loops whose trip count is a channel occupancy']


def get(pid):
    if pid not in ('C14', 'C15'):
        return None
    names = [n for n in SPEC if pid == 'C14' or n.split('_')[0] in ('gain', 'add', 'demux/0', 'demux/1')]
    fs = []
    for n in names:
        b = n.split('/')[0].split('_')[0].rstrip('123')
        k = n.split('/')[0].split('_')[-1]
        f = WHERE[b] % TYPE[k] if '%' in WHERE[b] else WHERE[b]
        for x in ('%s::%s' % (f, f.split('<')[0]), f + '::procedure'):
            if x not in fs:
                fs.append(x)
    us = [Unit(n, 'blocks', B.verify, SPEC[n][0], kwargs=SPEC[n][1], timeout=400) for n in names]
    tag = {'C14': 'flow', 'C15': 'value'}[pid]
    part = {'C14': 'flow', 'C15': 'value'}[pid]
    return dict(modules=MODS, units=[lambda t: us], natives=lambda t: [Native('blocks', 'blocks.cpp', args=[part], secs=(12, 60), libs=['-lpthread'])],
                functions=fs, assumptions=ASSUME, match=lambda o: tag in o['tags'] or not o['tags'])
