"""Extraction: compiles /repo's current sources with the fmqx libTooling extractor (one JSON-lines
file per translation unit) and caches each unit by the content of everything it includes."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FMQ_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TOOL = os.path.join(BUILD, 'fmqx')
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++') if os.path.exists(c)), 'clang++')

BASE_FLAGS = ['-std=c++17', '-I' + REPO, '-I' + os.path.join(VERIF, 'stubs'),
              '-DBOOST_ERROR_CODE_HEADER_ONLY', '-DBOOST_ASIO_HAS_HAS_STD_CHRONO',
              '-DFAIRMQ_HAS_STD_FILESYSTEM=1', '-DFAIRMQ_HAS_STD_PMR=1', '-w']


class BrokenAnalysis(Exception):
    pass


def build_tool():
    src = os.path.join(VERIF, 'analyzer', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = TOOL + '.sha'
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return h
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    r = subprocess.run([CLANG, '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS',
                        '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lclang-cpp', '-lLLVM',
                        '-Wl,-rpath,/usr/lib/llvm-18/lib'], capture_output=True, text=True)
    if r.returncode != 0:
        raise BrokenAnalysis('cannot build extractor: ' + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    open(stamp, 'w').write(h)
    return h


INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', re.M)
_bytes = {}


def fbytes(p):
    b = _bytes.get(p)
    if b is None:
        try:
            b = open(p, 'rb').read()
        except OSError:
            b = b''
        _bytes[p] = b
    return b


def closure(src):
    """all files under REPO/VERIF the unit textually includes (over-approximation)"""
    seen, todo = set(), [src]
    dirs = [REPO, os.path.join(VERIF, 'stubs')]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for m in INC.finditer(fbytes(f)):
            n = m.group(1).decode('utf-8', 'replace')
            for d in [os.path.dirname(f)] + dirs:
                p = os.path.normpath(os.path.join(d, n))
                if os.path.isfile(p) and (p.startswith(REPO + '/') or p.startswith(VERIF + '/')):
                    todo.append(p)
                    break
    return sorted(seen)


def units():
    us = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'fairmq')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.cxx', '.cpp')) and '/tidy' not in d and not f.startswith('runS') and f not in ('runBenchmarkSampler.cxx', 'runMerger.cxx', 'runMultiplier.cxx', 'runProxy.cxx', 'runUuidGenerator.cxx'):
                us.append(os.path.join(d, f))
    us += sorted(os.path.join(VERIF, 'analyzer', f) for f in os.listdir(os.path.join(VERIF, 'analyzer'))
                 if f.startswith('inst') and f.endswith('.cpp'))
    return us


def extract_unit(src, flags, toolhash):
    key = hashlib.sha256()
    key.update(toolhash.encode())
    key.update(' '.join(flags).encode())
    for f in closure(src):
        key.update(f.encode())
        key.update(hashlib.sha256(fbytes(f)).digest())
    k = key.hexdigest()[:32]
    cdir = os.path.join(BUILD, 'cache')
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, k + '.jl')
    if os.path.exists(out):
        try:
            os.utime(out)
        except OSError:
            pass
        err = open(out + '.err').read() if os.path.exists(out + '.err') else None
        return out, err
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([TOOL, '--root=' + REPO + '/fairmq', '--root=' + os.path.join(VERIF, 'analyzer'), '--out=' + tmp, src, '--'] + flags,
                       capture_output=True, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stderr.splitlines() if 'error:' in l][:6]
        msg = '%s: %s' % (src, ' | '.join(errs) or r.stderr[-400:])
        if not os.path.exists(tmp) or not os.path.getsize(tmp):
            return None, msg
        # clang recovers from errors: keep what it resolved, and say so in the evidence
        open(out + '.err', 'w').write(msg)
        os.replace(tmp, out)
        return out, msg
    os.replace(tmp, out)
    return out, None


def extract(sel=None, variant='release'):
    th = build_tool()
    flags = list(BASE_FLAGS)
    if variant == 'release':
        flags.append('-DNDEBUG')
    elif variant == 'debug':
        flags.append('-DFAIRMQ_DEBUG_MODE')
    us = units()
    if sel:
        us = [u for u in us if sel(u)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda u: extract_unit(u, flags, th), us))
    errs = [e for _, e in res if e]
    if any('fatal error' in e for e in errs):
        errs.append('fatal error in a unit: results are partial')
    # prune the cache: keep it bounded
    cdir = os.path.join(BUILD, 'cache')
    try:
        fs = [os.path.join(cdir, f) for f in os.listdir(cdir) if f.endswith('.jl')]
        if len(fs) > 600:
            fs.sort(key=os.path.getmtime)
            for f in fs[:-300]:
                if time.time() - os.path.getmtime(f) > 1200:
                    os.unlink(f)
    except OSError:
        pass
    return [(u, p) for u, (p, _) in zip(us, res) if p], errs
