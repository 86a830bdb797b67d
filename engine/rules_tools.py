"""C31: the rate limiter keeps limiting"""
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .rules_region import srcs

RL = 'fair::mq::tools::RateLimiter'
SKIP, COUNT, REQ, TW, TS, START = (RL + '::' + x for x in ('skip_check_count', 'count', 'tw_req', 'tw', 'ts', 'start_time'))
INV = {SKIP: 1, REQ: 1, TS: 0, TW: 0}
ARITH = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/', 'operator>': '>', 'operator<': '<', 'operator>=': '>=', 'operator<=': '<=', 'operator==': '=='}


def norm(g, t):
    """arithmetic of numbers and durations as ('op', o, a, b); casts and conversions dropped"""
    t = strip(t)
    if t[0] == 'var':
        ds = [d for d in g.defs.get(t[1], []) if d is not None]
        if len(ds) == 1 and strip(ds[0]) != t:
            return norm(g, ds[0])
        return t
    if t[0] == 'ctor' and len(t[2]) == 1:
        return norm(g, t[2][0])
    if t[0] == 'ctor' and not t[2] and 'duration' in str(t[1]):
        return ('c', 0)
    if t[0] == 'call':
        s = short(t[1])
        if s == 'zero' and not t[3]:
            return ('c', 0)
        if s in ('duration_cast', 'count', 'move', 'forward', 'round', 'floor'):
            return norm(g, t[3][0] if t[3] else t[2])
        if s in ARITH:
            a = ([t[2]] if t[2] is not None else []) + list(t[3])
            if len(a) == 2:
                return ('op', ARITH[s], norm(g, a[0]), norm(g, a[1]))
        if s in ('max', 'min') and len(t[3]) == 2:
            return ('op', s, norm(g, t[3][0]), norm(g, t[3][1]))
    if t[0] == 'op' and len(t) == 4:
        return ('op', t[1], norm(g, t[2]), norm(g, t[3]))
    if t[0] == 'op' and t[1] == '?' and len(t) == 5:
        return ('op', '?', norm(g, t[2]), norm(g, t[3]), norm(g, t[4]))
    return t


def low(t):
    """a lower bound, integer division rounding down"""
    if t[0] == 'c' and isinstance(t[1], (int, float)):
        return t[1]
    if fldq(t) in INV:
        return INV[fldq(t)]
    if t[0] == 'op' and len(t) == 4:
        a, b = low(t[2]), low(t[3])
        o = t[1]
        if o == 'max':
            return max(x for x in (a, b, float('-inf')) if x is not None)
        if o == 'min':
            return None if a is None or b is None else min(a, b)
        if a is None or b is None:
            return None
        if o == '+':
            return a + b
        if o == '*' and a >= 0 and b >= 0:
            return a * b
        if o == '/' and a >= 0 and b > 0:
            k = t[3][1] if t[3][0] == 'c' else None
            return a // k if k else 0
    if t[0] == 'op' and t[1] == '?':
        a, b = low(t[3]), low(t[4])
        return None if a is None or b is None else min(a, b)
    return None


def sign(t, pos):
    """'+' not negative, '-' not positive, None unknown; pos: differences known to be positive"""
    if (t[0], t[1:]) and t in pos:
        return '+'
    if t[0] == 'op' and t[1] == '-' and ('op', '-', t[3], t[2]) in pos:
        return '-'
    if t[0] == 'op' and t[1] in ('*', '/') and len(t) == 4:
        a, b = sign(t[2], pos), sign(t[3], pos)
        return None if None in (a, b) else '+' if a == b else '-'
    l = low(t)
    return '+' if l is not None and l >= 0 else None


def rel(t, f, pos):
    """value compared with field f: '=' '<' (not greater) '>' (not smaller) or None"""
    if fldq(t) == f:
        return '='
    if t[0] != 'op' or len(t) != 4:
        return '<' if t == ('c', 0) and INV.get(f, -1) >= 0 else None
    o, a, b = t[1:]
    if o in ('max', 'min'):
        up = '>' if o == 'max' else '<'
        rs = {rel(a, f, pos), rel(b, f, pos)}
        if rs & {'=', up}:
            return '=' if rs == {'='} else up if None in rs or up in rs else up if rs != {'=', '<' if up == '>' else '>'} else '='
        if rs == {'<'} or rs == {'>'}:
            return rs.pop()
        # something that limits the field from the other side
        return {'max': '<', 'min': '>'}[o] if ({'max': '<', 'min': '>'}[o] in rs) else None
    if o in ('+', '-'):
        r, s = rel(a, f, pos), sign(b, pos)
        if o == '+' and r is None:
            r, s = rel(b, f, pos), sign(a, pos)
        s = None if s is None else s if o == '+' else '-' if s == '+' else '+'
        d = {'+': '>', '-': '<'}.get(s)
        return d if r in ('=', d) and d else None
    if o == '/' and b[0] == 'c':
        k = factor(a, f)
        return None if k is None else '>' if k >= b[1] else '<'
    if o == '*':
        k = factor(t, f)
        return None if k is None else '>' if k >= 1 else '<'
    return None


def factor(t, f):
    """k of k*f (+ something not negative, for k at least the divisor)"""
    if fldq(t) == f:
        return 1
    if t[0] == 'op' and t[1] == '*' and len(t) == 4:
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == 'c' and factor(b, f) is not None:
                return a[1] * factor(b, f)
    if t[0] == 'op' and t[1] == '+' and len(t) == 4 and t[3][0] == 'c' and t[3][1] >= 0:
        return factor(t[2], f)
    return None


def scaled(t):
    """(field, factor) of field * a / b"""
    if fldq(t) is not None:
        return fldq(t), 1
    if t[0] == 'op' and len(t) == 4 and t[1] in ('*', '/'):
        for a, b in ((t[2], t[3]),) + (((t[3], t[2]),) if t[1] == '*' else ()):
            s = scaled(a)
            if s and b[0] == 'c' and b[1]:
                return s[0], s[1] * b[1] if t[1] == '*' else s[1] / b[1]
    return None


@prop('C31', ['fairmq/Device.cxx', 'analyzer/inst_core.cpp'])
def c31(ctx):
    """the rate limiter keeps limiting"""
    fs = [f for f in ctx.P.fns.values() if f.clsq == RL and f.body and not (f.kind == 'ctor' and any('RateLimiter' in p['t'] for p in f.params))]
    if not ctx.ob('rate', 'the rate limiter', len(fs) >= 2, 'fairmq/tools/RateLimit.h', 'class not found'):
        return
    req = lambda t: fldq(t) == REQ
    for f in fs:
        g = ctx.graph(f)
        live = [n for n in g.nodes if n.id in g.live]
        # the last write of a constructor counts
        for q, least, what in ((SKIP, 1, 'iterations between two checks'), (REQ, 1, 'requested duration of an iteration'), (TS, 0, 'time to sleep')):
            ws = [n for n in live if n.kind == 'write' and fldq(strip(n.d['lhs'])) == q]
            for n in ws:
                l = low(norm(g, n.d['rhs']))
                ok = l is not None and l >= least
                if q == TS and not ok:
                    ok = rel(norm(g, n.d['rhs']), TS, diffs(g, n)) == '>'
                ctx.ob('positive', '%s: %s' % (what, where(n)), ok, where(n), '%s may be below %d: %s' % (short(q), least, show(n.d['rhs'])))
        for n in live:
            if n.kind == 'write' and fldq(strip(n.d['lhs'])) == COUNT and not (f.kind == 'ctor' and constval(n.d['rhs']) == 1):
                t = norm(g, n.d['rhs'])
                dec = t[0] == 'op' and t[1] == '-' and fldq(t[2]) == COUNT and t[3] == ('c', 1)
                ctx.ob('positive', 'countdown: %s' % where(n), dec or fldq(t) == SKIP, where(n), 'the countdown is neither counted down by one nor restarted from skip_check_count')
            for t in [n.d['rhs']] if n.kind in ('write', 'decl') and n.d.get('rhs') is not None else []:
                for y in sub(norm(g, t)):
                    if y[0] == 'op' and y[1] in ('/', '%') and len(y) == 4 and not (f.kind == 'ctor' and y[3][0] == 'var'):
                        l = low(y[3])
                        ctx.ob('division', 'division at %s by %s' % (where(n), show(y[3])), l is not None and l > 0, where(n), 'the divisor may be zero')
    for f in fs:
        if f.kind == 'ctor':
            g = ctx.graph(f)
            F = Facts(g)

            def cl(n):
                if n.kind == 'write' and fldq(strip(n.d['lhs'])) == REQ:
                    t = norm(g, n.d['rhs'])
                    if any(y[0] == 'op' and y[1] == '/' and parm_idx(g, y[3]) == 0 for y in sub(t)):
                        return 'r'
                    return '1' if t == ('c', 1) and all('ratio<1, 1000000000>' in str(y[1]) for y in sub(n.d['rhs']) if y[0] == 'ctor') else None
                if n.kind == 'write' and fldq(strip(n.d['lhs'])) == COUNT:
                    return 'c' if fldq(norm(g, n.d['rhs'])) == SKIP else None
                return None

            def ed(n, m, lab):
                if n.kind == 'branch' and lab in (True, False):
                    key, pol = F.key(n.d['cond'])
                    if key[0] == 'op' and key[1] == '<' and len(key) == 4:
                        if constval(key[2]) == 0 and parm_idx(g, key[3]) == 0:
                            return 'p' if lab == pol else 'n'
                        if constval(key[3]) == 0 and parm_idx(g, key[2]) == 0:
                            return 'n' if lab == pol else 'p'
                return None
            lang(ctx, 'rate', 'the rate given is the rate kept; without one the limit is 1 GHz', g, cl, 'p 1? r c|n 1? 1 c', edge=ed, legend='p/n the rate is positive or not, r duration from the rate, 1 one nanosecond, c countdown started')
        elif f.name == 'maybe_sleep':
            g = ctx.graph(f)
            F = Facts(g)

            def cl2(n):
                if n.kind == 'write':
                    q, t = fldq(strip(n.d['lhs'])), norm(g, n.d['rhs'])
                    if q == COUNT:
                        return 'c' if fldq(t) == SKIP else None
                    if q == START:
                        return 'n' if any(y[0] == 'call' and short(y[1]) == 'now' for s in srcs(g, n.d['rhs']) for y in sub(s)) else '?'
                    if q == TW:
                        return 'w' if any(y[0] == 'op' and y[1] == '/' and fldq(y[3]) == SKIP and any(z[0] == 'op' and z[1] == '-' and fldq(z[3]) == START and any(v[0] == 'call' and short(v[1]) == 'now' for v in sub(z[2])) for z in sub(y[2])) for y in sub(t)) else '?'
                    if q in (TS, SKIP):
                        r = rel(t, q, diffs(g, n))
                        if r is None:
                            return '?'
                        # more sleep / more checks: slower
                        return 'i' if r == '=' else 'd' if (r == '<') == (q == TS) else 'u'
                if n.kind == 'call' and n.d['q'].startswith('std::this_thread::sleep'):
                    return 'z' if fldq(norm(g, n.d['args'][0])) == TS else '?'
                return None

            def ed2(n, m, lab):
                if n.kind != 'branch' or lab not in (True, False):
                    return None
                t = norm(g, n.d['cond'])
                if t[0] == 'op' and len(t) == 4:
                    o, a, b = t[1:]
                    if fldq(a) == COUNT and b == ('c', 0) and o in ('==', '!=', '<=', '>'):
                        return '0' if lab == (o in ('==', '<=')) else '1'
                    for x, y, oo in ((a, b, o), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o))):
                        sx, sy = scaled(x), scaled(y)
                        if sx and sy and sx[0] == TW and sy[0] == REQ:
                            k = sy[1] / sx[1]
                            if oo in ('>', '>=') and k >= 1:
                                return 'S' if lab else None
                            if oo in ('<', '<=') and k <= 1:
                                return 'F' if lab else None
                            return '?'
                        if fldq(x) == TS and y == ('c', 0) and oo in ('>', '<='):
                            return 'p' if lab == (oo == '>') else 'q'
                return None
            lang(ctx, 'rate', 'at the end of each countdown the time is compared and the next countdown started', g, cl2, '1|0 w (S [pq]* d|F [pq]* u|) (n c|c n) (p z|q)', edge=ed2,
                 legend='0/1 countdown at its end or not, w time per iteration since the last check, S/F slower/faster than requested, d sleep less or check less often, u sleep more or check more often, n start time renewed, c countdown started, p/q there is time to sleep or not, z slept')


def diffs(g, n):
    """differences known to be positive where n is executed: from the branches that dominate it"""
    out = set()
    for b in g.nodes:
        if b.kind != 'branch' or b.id not in g.live:
            continue
        for lab in (True, False):
            if not any(l == lab for m, l in b.succ):
                continue
            if not edge_before_one(g, b, lab, n):
                continue
            t = norm(g, b.d['cond'])
            if t[0] == 'op' and len(t) == 4 and t[1] in ('<', '>', '<=', '>='):
                a, c = (t[2], t[3]) if (t[1] in ('>', '>=')) == lab else (t[3], t[2])
                sa, sc = scaled(a), scaled(c)
                if sa and sc and sc[1] / sa[1] >= 1 and lab or sa and sc and sc[1] / sa[1] >= 1:
                    out.add(('op', '-', base(a), base(c)))
    return out


def base(t):
    return t if fldq(t) is not None else next(y for y in sub(t) if fldq(y) is not None and y[0] == 'fld')


def edge_before_one(g, b, lab, n):
    """every path to n takes the edge (b, lab)"""
    seen, st = set(), [g.entry]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.id == n.id:
            return False
        st += [m for m, l in x.succ if not (x is b and l == lab)]
    return True
