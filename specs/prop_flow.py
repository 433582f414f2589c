"""C11 worker pool partition, C12 execution loop, C13 idle back-off"""
from runner import Unit, Native
import flow_spec as F

KEEP = [r'^(g3|g10|s|sg|e|f)__']
MODS = {'flow': dict(src='flow.cpp', keep=KEEP)}
RUN = {'run': dict(src='flow.cpp', keep=KEEP + [r'run_fixed_thread_pool_worker', r'run_block_at_index_thread_per_block'])}


WK = {'worker': dict(src='flow.cpp', keep=KEEP + [r'execute_block_at_index_helperILm'])}
WORKERS = [Unit('worker/%d-%d/%d%s' % (a, b, k, '/pinned' if pin else ''), 'worker', F.verify_worker, ('g3', 3, w, a, b, k, pin)) for w, a, b in ((0, 0, 2), (1, 2, 3), (1, 2, 2)) for k in range(b - a + 1) for pin in (0, 1)]
INIT = ((1, 124), (125, 248))
G = 'cler::FlowGraph::'
S = 'cler::FixedThreadPoolScheduler::'
LOOPF = [G + f for f in ('run_block_at_index_thread_per_block', 'execute_block_at_index', 'execute_block_at_index_helper', 'handle_adaptive_sleep', 'run_fixed_thread_pool_worker', 'is_stopped')]
RUNF = [G + 'run', G + 'stop', G + '~FlowGraph', G + 'run_fixed_thread_pool']
POOLF = [S + 'initialize', S + 'get_next_block', S + 'is_block_owner']
ASSUME = ['the procedure of a block, the termination callback and the task policy (create, join, yield, sleep, pin) are contracts: any outcome, any elapsed time, no access to the graph other than through is_stopped and stop',
          'the graphs verified have 3 blocks (loop, pool) and 3 and 10 blocks (start, stop); every index of the 3-block graph is verified separately',
          'other threads change nothing of a block owned by this loop and set the stop flag at any time but never clear it while a loop runs',
          'the configuration handed to the loop is the one stored by run (postcondition of run), max_calls is between 1 and 2^40, max_us in [0, 1e12], the multiplier in [1.25, 1e6]',
          'fewer than 2^52 calls are made in one run',
          'the clock and the random jitter are arbitrary values, the jitter within its documented ten percent']


def get(pid):
    base = dict(modules=MODS)
    if pid == 'C11':
        us = [Unit('init/%d/%d-%d' % (w, a, b), 'flow', F.verify_init, (w, a, b)) for w in range(1, 9) for a, b in INIT]
        us += [Unit('owner/%s' % t, 'flow', F.verify_owner, (t,)) for t in ('sg', 'g3', 'g10')]
        us += [Unit('next/%s/%d' % (t, w), 'flow', F.verify_next, (t, w)) for t in ('sg', 'g3') for w in (0, 7)]
        us += [Unit('run/%s/%s/%d' % (t, 'pool' if k else 'blocks', w), 'run', F.verify_run, (t, k, w)) for t, ws in (('g3', (2, 3, 4)), ('g10', range(2, 13))) for w in ws for k in (0, 1) if k or w == 4]
        us += WORKERS
        return dict(modules=dict(MODS, **RUN, **WK), units=[lambda t: us], natives=lambda t: [Native('flow', 'flow.cpp', args=['pool'], secs=(6, 40))],
                    functions=POOLF + RUNF + [G + 'run_fixed_thread_pool_worker'], assumptions=ASSUME, match=lambda o: 'pool' in o['tags'] or not o['tags'])
    if pid == 'C12':
        us = [Unit('exec/%s/%d/%s' % (g, i, cb), 'flow', F.verify_exec, (g, n, i, False, cb == 'cb')) for g, n, ix in (('g3', 3, range(3)),) for i in ix for cb in ('cb', 'nocb')]
        us += [Unit('loop/%d/%s' % (i, cb), 'flow', F.verify_tpb, ('g3', 3, i, False, cb == 'cb')) for i in range(3) for cb in ('cb', 'nocb')]
        us += WORKERS
        us += [Unit('stop/%s/%s' % (t, k), 'run', F.verify_stop, (t, k)) for t in ('g3', 'g10') for k in ('stop', 'dtor')]
        return dict(modules=dict(MODS, **RUN, **WK), units=[lambda t: us], natives=lambda t: [Native('flow', 'flow.cpp', args=['loop'], secs=(6, 40))],
                    functions=LOOPF + RUNF + POOLF, assumptions=ASSUME)
    if pid == 'C13':
        us = [Unit('exec/%d' % i, 'flow', F.verify_exec, ('g3', 3, i, True, True)) for i in range(3)]
        us += [Unit('loop/%d' % i, 'flow', F.verify_tpb, ('g3', 3, i, True, True)) for i in range(3)]
        return dict(base, units=[lambda t: us], natives=lambda t: [Native('flow', 'flow.cpp', args=['sleep'], secs=(6, 40))],
                    functions=LOOPF[:4], assumptions=ASSUME + ['growth is claimed for back-offs of at least 1e-300 microseconds'])
    return None
