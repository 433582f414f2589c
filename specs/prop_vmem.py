"""C06 construction, C07 doubly mapped regions"""
from runner import Unit, Native
import vmem_spec as V

MODS = {'vmem': dict(src='vmem.cpp', keep=[r'^(v|p|hf|hb|hp|hn|kf|kp|kn|ch|ck)__', r'supports_doubly_mapped_buffers', r'get_huge_page_size'])}


def get(pid):
    if pid == 'C07':
        return dict(modules=MODS, units=[lambda t: [Unit('region/' + o, 'vmem', V.verify_region, (o,)) for o in ('default', 'create', 'recreate', 'move', 'massign', 'selfassign')]
                                         + [Unit('probe', 'vmem', V.verify_probe), Unit('huge', 'vmem', V.verify_huge)]],
                    natives=lambda t: [Native('vmem', 'vmem.cpp', san='ubsan', secs=(6, 60), libs=('-lpthread', '-lrt', '-Wl,' + ','.join('--wrap=' + x for x in ('mmap', 'munmap', 'close', 'ftruncate', 'syscall', 'shm_open', 'shm_unlink', 'fopen', 'fclose', 'memfd_create'))))],
                    functions=['cler::vmem::DoublyMappedAllocation::' + f for f in ('DoublyMappedAllocation()', 'DoublyMappedAllocation(&&)', 'operator=(&&)', '~DoublyMappedAllocation', 'create', 'data', 'second_mapping', 'size', 'valid', 'cleanup', 'create_shared_memory', 'get_huge_page_size')] + ['cler::platform::supports_doubly_mapped_buffers', 'cler::platform::get_page_size'],
                    assumptions=['contracts of memfd_create/shm_open/shm_unlink/ftruncate/mmap/munmap/close/fopen/fgets/fclose/sscanf/snprintf: any of them may fail; close and munmap of something owned succeed',
                                 'page size 4096; any huge page size (none, 64 KiB, 2 MiB, 512 MiB, 1 GiB)', 'requested sizes up to 2^62', 'Linux branch of the preprocessor conditionals'])
    if pid == 'C06':
        return dict(modules=MODS, units=[lambda t: [Unit('construct/' + g, 'vmem', V.verify_ctor, (g,)) for g in ('hf', 'hb', 'hp', 'hn', 'kf', 'kp', 'kn', 'ch', 'ck')]],
                    natives=lambda t: [Native('construct', 'construct.cpp', san='ubsan', secs=(5, 60), libs=('-lpthread', '-lrt', '-Wl,' + ','.join('--wrap=' + x for x in ('mmap', 'munmap', 'close', 'ftruncate', 'syscall', 'shm_open', 'shm_unlink'))))],
                    functions=['dro::SPSCQueue<T,N>::' + f for f in ('SPSCQueue', '~SPSCQueue', 'capacity', 'size', 'empty', 'space', 'is_doubly_mapped', 'get_buffer_ptr')] + ['dro::details::AdaptiveHeapBuffer::' + f for f in ('AdaptiveHeapBuffer', '~AdaptiveHeapBuffer')] + ['dro::details::StackBuffer::StackBuffer', 'cler::Channel<T,N>::Channel', 'cler::Channel<T,N>::~Channel', 'cler::vmem::DoublyMappedAllocation::create', 'cler::vmem::DoublyMappedAllocation::cleanup'],
                    assumptions=['instantiations: float, uint8_t, a 12-byte struct and a counted non-trivial 8-byte element on the heap; float/7, 12 bytes/1, counted/3 in place; Channel<float>, Channel<float,7>',
                                 'every requested capacity from 1 to 2^64-1; capacity 0 is refused by an assertion (documented precondition)',
                                 'operator new either throws bad_alloc or gives at most 2^46 bytes; system calls as in C07; page size 4096; support probe: any constant answer',
                                 'for the counted element type only descriptor creation and address-space reservation fail (other failures: the trivial element types)'])
    return None
