"""Runs the units of a property in parallel processes and turns their obligations into a verdict and evidence."""
import json
import multiprocessing as mp
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, 'specs')]
sys.setrecursionlimit(20000)
import front      # noqa: E402
import llvm_ir    # noqa: E402
import symex      # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
MODULES = {}


class Unit:
    """one function (or lemma) under contract: fn(ex, *args) leaves obligations in ex.obls"""

    def __init__(self, name, module, fn, args=(), kwargs=None, timeout=420, bounded=None, fp='uf', funcs=None):
        self.name, self.module, self.fn, self.args, self.kwargs = name, module, fn, args, kwargs or {}
        self.timeout, self.bounded, self.fp, self.funcs = timeout, bounded, fp, funcs


class Native:
    """a driver over the public API: bounded replay/cross-check of the contracts on the compiled code"""

    def __init__(self, name, src, args=(), san='asan', opt='-O0', flags=(), libs=('-lpthread',), timeout=120, secs=(6, 40),
                 extra=(), seeds=1, sources=(), env=None):
        self.name, self.src, self.args, self.san, self.opt = name, src, list(args), san, opt
        self.flags, self.libs, self.timeout, self.secs, self.extra = list(flags), list(libs), timeout, secs, list(extra)
        self.seeds, self.sources, self.env = seeds, list(sources), env


SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], 'tsan': ['-fsanitize=thread'], 'none': [],
       'ubsan': ['-fsanitize=undefined', '-fno-sanitize-recover=all']}


def build_native(n, tmp):
    cc = 'clang-18' if n.src.endswith('.c') else 'clang++-18'
    exe = os.path.join(tmp, 'native_' + n.name)
    objs = []
    log = ''
    cmds = []
    std = ['-std=gnu11'] if n.src.endswith('.c') else ['-std=c++17']
    inc = ['-I' + x for x in front.includes()] + ['-I' + os.path.join(ROOT, 'native')]
    base = [n.opt, '-g', '-w', '-UNDEBUG'] + SAN[n.san] + inc + n.flags
    for i, s in enumerate([os.path.join(ROOT, 'native', n.src)] + [x if x.startswith('/') else os.path.join(REPO, x) for x in n.sources]):
        c = s.endswith('.c')
        o = '%s_%d.o' % (exe, i)
        cmds.append(['clang-18' if c else 'clang++-18', '-std=gnu11' if c else '-std=c++17'] + base + ['-c', s, '-o', o])
        objs.append(o)
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
    for p, c in zip(ps, cmds):
        out, _ = p.communicate(timeout=400)
        if p.returncode:
            return None, ' '.join(c) + '\n' + out[-4000:]
    c = ['clang++-18'] + SAN[n.san] + objs + ['-o', exe] + n.libs
    p = subprocess.run(c, capture_output=True, text=True, timeout=300)
    if p.returncode:
        return None, ' '.join(c) + '\n' + p.stderr[-4000:]
    for o in objs:
        os.unlink(o)
    return exe, ''


def native_worker(n, tmp, tier, seed, q):
    t0 = time.time()
    try:
        exe, log = build_native(n, tmp)
        if not exe:
            q.put((n.name, 'error', 'native driver does not build: ' + log, time.time() - t0, ''))
            return
        secs = n.secs[0] if tier == 'quick' else n.secs[1]
        env = dict(os.environ)
        env.update({'ASAN_OPTIONS': 'detect_leaks=1:exitcode=55:allocator_may_return_null=1:detect_stack_use_after_return=0', 'UBSAN_OPTIONS': 'print_stacktrace=1',
                    'TSAN_OPTIONS': 'halt_on_error=1 exitcode=66'})
        env.update(n.env or {})
        scratch = os.path.join(tmp, 'scratch_' + n.name)
        os.makedirs(scratch, exist_ok=True)
        cmd = [exe, str(seed), str(secs)] + n.args
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + n.timeout, cwd=scratch, env=env, errors='replace')
            out = p.stdout[-6000:] + ('\n' + p.stderr[-6000:] if p.stderr else '')
            full = p.stdout + p.stderr
            if p.returncode == 0 and 'PASS' in p.stdout:
                st = 'pass'
            elif 'FAIL:' in full or 'ERROR: AddressSanitizer' in full or 'runtime error:' in full or 'ThreadSanitizer: data race' in full \
                    or 'LeakSanitizer: detected' in full or 'Assertion' in full or 'terminate called' in full or p.returncode in (-11, -6, -8, -4):
                st = 'fail'
            else:
                st = 'error'
        except subprocess.TimeoutExpired as e:
            st, out = 'error', 'native driver timed out'
        q.put((n.name, st, out, time.time() - t0, ' '.join(['clang++-18 ...', n.src] + cmd[1:])))
    except Exception:
        q.put((n.name, 'error', traceback.format_exc()[-2000:], time.time() - t0, ''))


def unit_worker(u, q):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    ex = None
    err = None
    try:
        ex = symex.Executor(MODULES[u.module] if u.module else None, fp=u.fp)
        ex.deadline = t0 + u.timeout
        u.fn(ex, *u.args, **u.kwargs)
    except symex.Unsupported as e:
        err = 'unsupported: %s' % e
    except MemoryError:
        err = 'out of memory'
    except Exception as e:
        err = 'tool error: ' + traceback.format_exc(limit=-6)
    obls = []
    if ex is not None:
        for o in ex.obls:
            d = o.asdict()
            d['model'] = {k: v for k, v in list((o.model or {}).items())[:60]} if o.status == 'fail' else None
            obls.append(d)
    try:
        q.put((u.name, obls, err, time.time() - t0, getattr(ex, 'solver_time', 0), getattr(ex, 'queries', 0),
               sorted(getattr(ex, 'stepped', [])), dict(getattr(ex, 'used_contracts', {})), getattr(ex, 'notes', [])))
    except Exception as e:
        q.put((u.name, [], 'result not transferable: %s' % e, time.time() - t0, 0, 0, [], {}, []))


def run_all(units, natives, tmp, tier, seed, jobs=None):
    jobs = jobs or max(2, os.cpu_count() or 4)
    ctx = mp.get_context('fork')
    res, nres = {}, {}
    pend = [('n', x) for x in natives] + [('u', x) for x in sorted(units, key=lambda u: -u.timeout)]
    live = []
    stop = time.time() + (690 if tier == 'quick' else 3 * 3600)      # a check has to answer in time
    while pend or live:
        if time.time() > stop:
            for kind, x in pend:
                if kind == 'u':
                    res[x.name] = (x.name, [], 'not run: out of time', 0, 0, 0, [], {}, [])
                else:
                    nres[x.name] = (x.name, 'error', 'not run: out of time', 0, '')
            pend = []
        while pend and len(live) < jobs:
            kind, x = pend.pop(0)
            q = ctx.SimpleQueue() if False else ctx.Queue()
            if kind == 'u':
                p = ctx.Process(target=unit_worker, args=(x, q))
                lim = x.timeout + 60
            else:
                p = ctx.Process(target=native_worker, args=(x, tmp, tier, seed, q))
                lim = 700
            p.start()
            live.append((kind, x, p, q, time.time(), lim))
        time.sleep(0.01)
        for ent in list(live):
            kind, x, p, q, t0, lim = ent
            done = None
            if not q.empty():
                done = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                time.sleep(0.05)
                done = q.get() if not q.empty() else None
                if done is None:
                    done = 'died'
            elif time.time() - t0 > lim or time.time() > stop:
                p.kill()
                p.join()
                done = 'timeout'
            if done is None:
                continue
            live.remove(ent)
            if kind == 'u':
                if isinstance(done, str):
                    done = (x.name, [], 'process ' + done, time.time() - t0, 0, 0, [], {}, [])
                res[x.name] = done
            else:
                if isinstance(done, str):
                    done = (x.name, 'error', 'process ' + done, time.time() - t0, '')
                nres[x.name] = done
                if done[1] == 'fail':          # a failing input is at hand: no need to finish every proof
                    stop = min(stop, time.time() + 150)
    return res, nres
