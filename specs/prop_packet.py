"""C16 packet pool and datagram blocks"""
from runner import Unit, Native
import packet_spec as P

KEEP = [r'^_ZNK?4cler7ChannelI', r'^_ZN4Slab9take_slotEv', r'^_ZN4Slab12release_slotEm', r'^_ZN4Blob7releaseEv', r'21GenericDatagramSocket(4recv|4send)', r'basic_string', r'parse_address',
        r'__(sizeof|q|n|max|data|sock|slab|in|set|ok|err)$']
MODS = {'packet': dict(src='packet.cpp', keep=KEEP)}
SRC = ['desktop_blocks/blob.cpp', 'desktop_blocks/udp/shared.cpp']


def units(tier):
    us = [Unit('pool/new', 'packet', P.pool_ctor), Unit('pool/take', 'packet', P.pool_take), Unit('pool/give', 'packet', P.pool_give, ('slot',)), Unit('pool/release', 'packet', P.pool_give, ('blob',)),
          Unit('pool/layout', 'packet', P.layout), Unit('socket/recv', 'packet', P.sock, ('recv',)), Unit('socket/send', 'packet', P.sock, ('send',))]
    us += [Unit('%s/%s%s' % (n, 'v' if v else '-', 'c' if c else '-'), 'packet', P.rx, (n, v, c)) for n in ('rx_b', 'rx_a') for v in (0, 1) for c in (0, 1)]
    us += [Unit('%s/%s' % (n, 'c' if c else '-'), 'packet', P.tx, (n, c)) for n in ('tx_b', 'tx_a') for c in (0, 1)]
    return us


def get(pid):
    if pid != 'C16':
        return None
    return dict(modules=MODS, units=[units],
                natives=lambda t: [Native('packet', 'packet.cpp', sources=SRC, secs=(8, 60)), Native('packet_mt', 'packet.cpp', args=['mt'], san='tsan', opt='-O1', sources=SRC, secs=(6, 60))],
                functions=['Slab::Slab', 'Slab::take_slot', 'Slab::release_slot', 'Slab::capacity', 'Slab::available_slots', 'Slab::max_blob_size', 'Blob::release', 'UDPBlock::GenericDatagramSocket::recv',
                           'UDPBlock::GenericDatagramSocket::send', 'UDPBlock::GenericDatagramSocket::is_valid', 'SourceUDPSocketBlock<Blob>::procedure', 'SourceUDPSocketBlock<std::array<uint8_t,24>>::procedure',
                           'SinkUDPSocketBlock<Blob>::procedure', 'SinkUDPSocketBlock<std::array<uint8_t,24>>::procedure'],
                assumptions=['the free list and the channels are used through the channel contracts (proved for the real channel under C01..C03); one thread takes from the free list, one gives back',
                             'a pool holds at most 2^40 bytes and 2^40 slots, at least one slot',
                             'contracts of recvmsg/sendto/errno: any length up to the buffer, any error number, truncation in any case; a send of a datagram is all or nothing',
                             'the receiving blocks are verified from any state with or without a kept slot; a kept slot was taken from the pool (established by the step itself)',
                             'a datagram received by the fixed-size block has the size of the element (shorter ones are accepted as they are)',
                             'user callbacks and validators only look at what they are shown',
                             'the local batch array fits the stack',
                             'the construction of sockets and addresses (system calls, text parsing) is not under contract'])
