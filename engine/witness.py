"""Type-level witnesses: snippets that must, or must not, compile against the current headers."""
import hashlib, os, re, subprocess
from . import extract as X


def _compile(code, variant):
    h = hashlib.sha256()
    flags = list(X.BASE_FLAGS) + (['-DFAIRMQ_DEBUG_MODE'] if variant == 'debug' else ['-DNDEBUG'])
    os.makedirs(os.path.join(X.BUILD, 'wit'), exist_ok=True)
    src = os.path.join(X.BUILD, 'wit', 'w%s.cpp' % hashlib.sha256(code.encode()).hexdigest()[:16])
    if not os.path.exists(src):
        open(src + '.%d' % os.getpid(), 'w').write(code)
        os.replace(src + '.%d' % os.getpid(), src)
    h.update((code + ' '.join(flags)).encode())
    for f in X.closure(src):
        h.update(f.encode())
        h.update(hashlib.sha256(X.fbytes(f)).digest())
    out = os.path.join(X.BUILD, 'wit', h.hexdigest()[:32] + '.res')
    if os.path.exists(out):
        t = open(out).read()
        return int(t.split('\n', 1)[0]), t.split('\n', 1)[1]
    r = subprocess.run([X.CLANG, '-fsyntax-only', '-ferror-limit=20'] + flags + [src], capture_output=True, text=True)
    open(out + '.%d' % os.getpid(), 'w').write('%d\n%s' % (r.returncode, r.stderr))
    os.replace(out + '.%d' % os.getpid(), out)
    return r.returncode, r.stderr


def must_fail(ctx, rule, inst, code, pattern, loc):
    rc, err = _compile(code, ctx.variant)
    ctx.ob(rule, inst, rc != 0 and re.search(pattern, err) is not None, loc, 'compiles although it must be rejected' if rc == 0 else 'rejected for another reason: ' + err[:300])


def must_compile(ctx, rule, inst, code, loc):
    rc, err = _compile(code, ctx.variant)
    errs = [l for l in err.splitlines() if 'error' in l][:2]
    ctx.ob(rule, inst, rc == 0, loc, ' | '.join(errs))


def asserts(ctx, rule, headers, lines, loc):
    """each (name, condition) becomes a static_assert; failing ones are reported individually"""
    code = ''.join('#include <%s>\n' % h for h in headers) + '#include <type_traits>\n#include <memory>\n'
    for i, (nm, c) in enumerate(lines):
        code += 'static_assert(%s, "W%d");\n' % (c, i)
    rc, err = _compile(code, ctx.variant)
    failed = {int(m) for m in re.findall(r'static assertion failed[^"\n]*(?:"|: )W?(\d+)', err)} | {int(m) for m in re.findall(r'W(\d+)', '\n'.join(l for l in err.splitlines() if 'static assertion failed' in l or 'static_assert failed' in l))}
    hard = [l for l in err.splitlines() if 'error:' in l and 'static assertion failed' not in l and 'static_assert' not in l]
    for i, (nm, c) in enumerate(lines):
        ctx.ob(rule, nm, i not in failed and not hard, loc, hard[0] if hard else 'type property does not hold: ' + c)
