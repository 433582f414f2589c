"""Front end: clang + opt turn the current /repo source (through a harness TU) into normalised bitcode.

Contract functions are kept as calls (noinline); everything else is inlined, then sroa/mem2reg/simplifycfg
normalise it.  Extraction drops nothing but inlining boundaries: what is verified is the IR of the real code.
"""
import os
import re
import subprocess
import tempfile
import hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANGXX, CLANG, OPT, DIS, AS = 'clang++-18', 'clang-18', 'opt-18', 'llvm-dis-18', 'llvm-as-18'

INCLUDES = ['include', 'desktop_blocks', 'desktop_blocks/math', 'desktop_blocks/utils', 'desktop_blocks/noise', '', 'desktop_blocks/adsb']
PASSES = ('inline<only-mandatory>' if False else 'cgscc(inline),globaldce,'
          'function(sroa<modify-cfg>,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,sroa<modify-cfg>),'
          'cgscc(inline),globaldce,'
          'function(sroa<modify-cfg>,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,adce)')


class BuildError(Exception):
    pass


def run(cmd, what, timeout=300):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def compile_bc(src, out, keep, lang='c++', defs=(), incs=(), opt=True, flags=(), noaccess=True, passes=None):
    """src harness -> bitcode `out`. keep: regex list on mangled names that stay calls"""
    d = os.path.dirname(out)
    os.makedirs(d, exist_ok=True)
    raw = out + '.raw.ll'
    cc = [CLANGXX, '-std=c++17'] if lang == 'c++' else [CLANG, '-std=gnu99']
    cmd = cc + ['-O1', '-Xclang', '-disable-llvm-passes', '-UNDEBUG', '-ffp-contract=off', '-fno-vectorize',
                '-fno-discard-value-names', '-w', '-fno-strict-aliasing', '-S', '-emit-llvm']
    if lang == 'c++' and noaccess:
        cmd += ['-fno-access-control']
    for i in INCLUDES:
        cmd += ['-I', os.path.join(REPO, i)]
    for i in incs:
        cmd += ['-I', i]
    for x in defs:
        cmd += ['-D' + x]
    cmd += list(flags) + [src, '-o', raw]
    run(cmd, 'clang')
    txt = open(raw).read()
    keeps = [re.compile(k) for k in keep]
    # give every kept function noinline, drop inlining hints elsewhere
    lines = []
    attr_no = 990000
    for ln in txt.split('\n'):
        if ln.startswith('define '):
            m = re.search(r'@("?)([^"(]+)\1\(', ln)
            name = m.group(2) if m else ''
            if any(k.search(name) for k in keeps):
                # function attributes go before the "comdat"/"align"/"personality"/"{" part
                ln = insert_attr(ln, 'noinline')
        lines.append(ln)
    txt = '\n'.join(lines)
    txt = re.sub(r'(attributes #\d+ = \{[^}\n]*?)\bnoinline\b', r'\1', txt)
    txt = re.sub(r'(attributes #\d+ = \{[^}\n]*?)\balwaysinline\b', r'\1', txt)
    open(raw, 'w').write(txt)
    if opt:
        run([OPT, '-passes=' + (passes or PASSES), '-inline-threshold=1000000', '-inlinecold-threshold=1000000', '-inlinehint-threshold=1000000',
             '-inline-cold-callsite-threshold=1000000', raw, '-o', out], 'opt')
    else:
        run([AS, raw, '-o', out], 'llvm-as')
    try:
        os.unlink(raw)
    except OSError:
        pass
    return out


def insert_attr(ln, attr):
    """add a function attribute to a textual define line: after the closing paren of the parameter list"""
    i = ln.index('@')
    # find the parameter list's opening paren
    j = ln.index('(', i)
    depth = 0
    while True:
        c = ln[j]
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if depth == 0:
                break
        j += 1
    head, tail = ln[:j + 1], ln[j + 1:]
    # skip unnamed_addr / local_unnamed_addr
    m = re.match(r'\s*(local_unnamed_addr|unnamed_addr)?', tail)
    k = m.end()
    return head + tail[:k] + ' ' + attr + tail[k:]


def demangle(names):
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')[:len(names)]


def includes():
    return [os.path.join(REPO, i) for i in INCLUDES] + [os.path.join(REPO, 'include', 'task_policies')]
