"""C14 interruptible transfers, C15 transfer contract, C16 transfer counters, C17 zeromq messages and sockets."""
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .rules_channel import call_result_edge, parms_in_direct, loops_around, edge_before, dominators, lam_fn
from .rules_props import tas, simple_type

TRS = ('zmq', 'shmem')
UNIT = ['analyzer/inst_transport.cpp', 'analyzer/inst_core.cpp', 'analyzer/inst_devices.cpp']
XFER = ('zmq_msg_send', 'zmq_msg_recv', 'zmq_send', 'zmq_recv')
EAGAIN, EINTR, DONTWAIT, SNDMORE, ETERM = 11, 4, 1, 2, 156384765


def sockq(tr):
    return 'fair::mq::%s::Socket' % tr


def transfer_fns(ctx):
    """(transport, function, 'Send'|'Receive', multipart?)"""
    out = []
    for tr in TRS:
        for nm in ('Send', 'Receive'):
            for f in ctx.fns(sockq(tr) + '::' + nm):
                if f.body:
                    out.append((tr, f, nm, 'vector' in f.params[0]['t']))
    if len(out) != 8:
        ctx.broken('expected 8 transfer functions, found %d' % len(out))
    return out


def codes_of(ctx):
    return {c['n']: c['v'] for c in enum_vals(ctx, 'fair::mq::TransferCode')['c']}


HELPERS = ('ShouldRetry', 'HandleErrors', 'Interrupted')


class Xfer:
    """event view of one transfer function"""
    def __init__(s, ctx, tr, f, nm, multi):
        s.ctx, s.tr, s.f, s.nm, s.multi = ctx, tr, f, nm, multi
        s.inst = '%s %s(%s)' % (tr, nm, 'parts' if multi else 'message')
        s.g = g = ctx.graph(f, inline=lambda x: x.name not in HELPERS and not (x.clsq == f.clsq and x.name == nm))
        s.F = Facts(g)
        s.X = g.find(lambda n: n.kind == 'call' and n.d['q'] in XFER)
        s.R = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'ShouldRetry')
        s.I = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'Interrupted')
        s.H = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'HandleErrors')
        s.D = g.find(lambda n: n.kind == 'call' and n.d['q'] == f.q)
        s.codes = codes_of(ctx)
        s.xt = {y for n in s.X for y in (n.d['term'], s.g.resolve(n.d['term']))}
        s.cnt = {k: sockq(tr) + '::f' + k for k in ('MessagesTx', 'BytesTx', 'MessagesRx', 'BytesRx')}

    def is_x(s, t):
        return t in s.xt or strip(s.g.resolve(t)) in s.xt

    def edge(s, n, m, lab):
        if n.kind != 'branch' or lab not in (True, False):
            return None
        g = s.g
        key, pol = s.F.key(n.d['cond'])
        v = lab == pol
        if key[0] == 'op' and len(key) == 4:
            a, b = key[2], key[3]
            if key[1] == '<' and s.is_x(a) and constval(b) in ((0, 1) if s.tr == 'shmem' else (0,)):
                return 'f' if v else 's'
            if key[1] == '<' and s.is_x(b) and constval(a) in ((0, -1) if s.tr == 'shmem' else (-1,)):
                return 's' if v else 'f'
            if key[1] == '==' and (s.is_x(a) and constval(b) == -1 or s.is_x(b) and constval(a) == -1):
                return 'f' if v else 's'
            if key[1] == '==':
                for x, y in ((a, b), (b, a)):
                    if 'errno' in show(x) and constval(y) in (EAGAIN, EINTR):
                        return 'g' if v else ('a' if constval(y) == EAGAIN else 'b')
        r = call_result_edge(g, s.F, n, lab, s.I, 'I', 'J')
        if r is None and fldq(key) and short(fldq(key)) == 'fInterrupted':
            r = 'I' if v else 'J'
        return r or call_result_edge(g, s.F, n, lab, s.R, 'y', 'n')

    def ret(s, n):
        """letter of a return"""
        g = s.g
        c = cval(g, rv(n))
        for k, v in s.codes.items():
            if c == v and c is not None:
                return {'interrupted': 'i', 'timeout': 't', 'error': 'e'}.get(short(k), 'O')
        t = g.resolve(rv(n))
        if any(x in {h.d['term'] for h in s.H} for x in g.sources(rv(n))):
            return 'e'
        return 'O'

    def cl(s, n):
        if n in s.X:
            return 'X'
        if n in s.D:
            return 'D'
        if n.kind == 'ret' and n.fn is s.g.root:
            return s.ret(n)
        return None


OUT = r'((Xs)*Xf[ab]?gJy)* (D?O|D?e | (Xs)+O | (Xs)*Xf[ab]?gIi | (Xs)*Xf[ab]?gJnt | (Xs)*Xf(ab|ba)e)'
LEG = 'X transfer attempt, s/f done / failed, g errno is EAGAIN or EINTR (a/b not), I/J interrupted or not, y/n retry or not, O byte count, i/t/e interrupted / timeout / error'


@prop('C15', UNIT)
def c15(ctx):
    """outcome of a transfer"""
    for tr, f, nm, multi in transfer_fns(ctx):
        x = Xfer(ctx, tr, f, nm, multi)
        g, F = x.g, x.F
        if not x.X:
            ctx.bad('outcome', x.inst, f.loc(), 'nothing is transferred')
            continue
        lang(ctx, 'outcome', x.inst, g, x.cl, OUT.replace('D?O|D?e', 'DO|e'), edge=x.edge, legend=LEG)
        # direction, socket
        for n in x.X:
            ok = ('send' in n.d['q']) == (nm == 'Send') and any(fldq(g.resolve(a)) == sockq(tr) + '::fSocket' for a in n.d['args'])
            ctx.ob('direction', x.inst, ok, where(n), 'uses %s on %s' % (n.d['q'], [show(a) for a in n.d['args'][:2]]))
        for n in x.D:
            ctx.ob('direction', x.inst + ' delegates', forwarded_msg(g, n), where(n), 'another transfer is done instead')
        flags(ctx, x)
        for n in x.R:
            a = [g.resolve(y) for y in n.d['args']]
            ok = len(a) == 4 and fldq(a[1]) == sockq(tr) + '::fTimeout' and parm_idx(g, n.d['args'][2]) == 1 and strip(n.d['args'][3])[0] == 'var' and is_flags(x, n.d['args'][0])
            ctx.ob('retry-args', x.inst, ok, where(n), 'the retry decision is made from %s' % ', '.join(show(y) for y in a))
            # the elapsed time is kept over the attempts
            v = strip(n.d['args'][3])
            if v[0] == 'var':
                inits = [m for m in g.nodes if m.id in g.live and m.kind in ('write', 'decl') and (m.d.get('lhs') == v or m.d.get('var') == v)]
                inner = [m for m in inits if any(m.id in b and n.id in b for h, b in natural_loops(g))]
                ctx.ob('retry-args', x.inst + ' elapsed time adds up', not inner and bool(inits) and all(cval(g, m.d['rhs']) == 0 for m in inits), where(inner[0]) if inner else where(n), 'the elapsed time is reset between attempts')
        value(ctx, x)
    retry_fn(ctx)
    errors_fn(ctx)


def forwarded_msg(g, n):
    return 0 in parms_in(g, n.d['args'][0]) and parm_idx(g, n.d['args'][1]) == 1


def is_flags(x, t):
    """the do-not-wait flag reaches the value on every way of computing it"""
    g = x.g
    t = strip(t)
    if t[0] == 'var':
        ds = [d for d in g.defs.get(t[1], [])]
        if any(constval(d) == DONTWAIT for d in ds):
            return True
        return bool(ds) and all(is_flags(x, d) for d in ds)
    if t[:2] == ('op', '|'):
        return any(is_flags(x, y) for y in t[2:4])
    if t[0] in ('cond', 'op') and t[1] == '?':
        return all(is_flags(x, y) for y in t[-2:])
    return False


def flags(ctx, x):
    """non-blocking exactly if the timeout is 0; more parts follow exactly if it is not the last part"""
    g, F = x.g, x.F

    def tedge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            if key[0] == 'op' and key[1] == '==' and any(parm_idx(g, y) == 1 for y in key[2:4]) and any(constval(y) == 0 for y in key[2:4]):
                return 'T' if lab == pol else 'F'
        return None

    def cl(n):
        if n in x.X:
            fl = n.d['args'][-1]
            return 'X'
        if n.kind in ('write', 'decl') and n.d.get('rhs') is not None and constval(n.d['rhs']) == DONTWAIT and 'int' == (g.vinfo.get((n.d.get('lhs') or n.d.get('var') or ('', 0))[1], {}).get('t', 'int')):
            l = n.d.get('lhs') or n.d.get('var')
            if l and l[0] == 'var' and any(l in set(g.sources(y.d['args'][-1])) for y in x.X):
                return 'W'
        return None
    bad, _ = words(g, cl, '(TW|F)X*|D?', edge=tedge, ends=())
    # every transfer is preceded by the decision
    lang(ctx, 'non-blocking', x.inst, g, cl, '(TW|F)X*|', edge=tedge, ends=('exit',), legend='T/F timeout is 0 or not, W do not wait, X transfer')
    for n in x.X:
        ctx.ob('non-blocking', x.inst + ' flags are used', is_flags(x, n.d['args'][-1]), where(n), 'the transfer ignores the flags')
        srcs = list(g.sources(n.d['args'][-1]))
        more = [m for m in g.nodes if m.id in g.live and m.kind in ('write', 'decl') and m.d.get('rhs') is not None and (m.d.get('lhs') or m.d.get('var')) in srcs and has_flag(m.d['rhs'], SNDMORE)]
        if x.tr == 'zmq' and x.multi and x.nm == 'Send':
            def last(k, v):
                """fact says: not the last part"""
                if k[0] != 'op' or k[1] not in ('<', '=='):
                    return None
                sz = [y for y in k[2:4] if any(z[0] == 'call' and short(z[1]) == 'size' for z in sub(g.resolve(y)))]
                if len(sz) != 1:
                    return None
                s1 = sz[0]
                o = [y for y in k[2:4] if y is not s1][0]
                minus = s1[0] == 'op' and s1[1] == '-' and constval(s1[3]) == 1
                plus = o[0] == 'op' and o[1] == '+' and 1 in (constval(o[2]), constval(o[3]))
                if not (minus ^ plus):
                    return None
                if k[1] == '<':
                    return v if k[3] is s1 or k[3] == s1 else None
                return not v
            ctx.ob('more-parts', x.inst, bool(more) and all(always(g, m, lambda k, v: last(k, v) is True) for m in more), where(n), 'the more-parts flag is not set for exactly all but the last part')
            less = [m for m in g.nodes if m.id in g.live and m.kind == 'write' and m.d.get('rhs') is not None and m.d['lhs'] in srcs and m not in more and any(m.d['lhs'] == y.d['lhs'] for y in more if y.kind == 'write')]
            ctx.ob('more-parts', x.inst + ' last', all(always(g, m, lambda k, v: last(k, v) is False) for m in less), where(n), 'a part that is not the last one is sent as the last')
        else:
            ctx.ob('more-parts', x.inst, not more, where(n), 'a complete transfer is marked as incomplete')


def has_flag(t, bit):
    return any(constval(s) is not None and isinstance(constval(s), int) and constval(s) & bit and s[0] in ('c', 'enum') for s in ([t] if t[0] in ('c', 'enum') else [y for y in t[2:] if isinstance(y, tuple)] if t[:2] == ('op', '|') else []))


SIZES = ('zmq_msg_size', 'GetSize')


def is_size(g, t):
    t = g.resolve(t)
    return t[0] == 'call' and short(t[1]) in SIZES or t[0] == 'fld' and short(t[2]) == 'fSize'


def value(ctx, x):
    """the byte count is the size of the message, or the sum over all parts"""
    g, F = x.g, x.F
    outs = [n for n in ret_values(g) if n.fn is g.root and x.ret(n) == 'O' and not any(s in {d.d['term'] for d in x.D} for s in g.sources(rv(n)))]
    if not outs:
        ctx.bad('byte-count', x.inst, x.f.loc(), 'no byte count is returned')
        return
    for n in outs:
        t = strip(rv(n))
        if not x.multi:
            ctx.ob('byte-count', x.inst, is_size(g, t) and of_msg(g, t), where(n), 'returns %s' % show(g.resolve(t)))
            continue
        if t[0] != 'var':
            ctx.bad('byte-count', x.inst, where(n), 'returns %s' % show(t))
            continue
        ds = g.defs.get(t[1], [])
        adds = [m for m in g.nodes if m.id in g.live and m.kind == 'write' and m.d['lhs'] == t and m.d['rhs'][0] == 'op' and m.d['rhs'][1] == '+' and t in m.d['rhs'][2:4]]
        zero = [m for m in g.nodes if m.id in g.live and m.kind in ('decl', 'write') and (m.d.get('var') == t or m.d.get('lhs') == t) and m not in adds]
        ok = adds and zero and all(cval(g, m.d['rhs']) == 0 for m in zero)
        for m in adds:
            o = [y for y in m.d['rhs'][2:4] if y != t]
            ok = ok and len(o) == 1 and is_size(g, o[0])
        ctx.ob('byte-count', x.inst + ' adds the parts', bool(ok), where(n), 'the count is not the sum of the sizes of the parts')
        # once per part, starting from zero in every attempt
        xs = x.X
        if x.tr == 'zmq':
            lang(ctx, 'byte-count', x.inst + ' counts each part once', g, lambda k: 'X' if k in xs else 'A' if k in adds else 'Z' if k in zero else ('O' if k in outs else 'r' if k.kind == 'ret' and k.fn is g.root else None),
                 '(Z(XsA)*(Xf)?)*Z(XsA)*(Xf)?r|(Z(XsA)*(Xf)?)*Z(XsA)+O|r' if x.nm == 'Send' else '(Z(XsA)*(Xf)?)*Z(XsA)*(Xf)?r|(Z(XsA)*(Xf)?)*Z(XsA)+O', edge=lambda k, m, lab: (lambda e: e if e in ('s', 'f') else None)(x.edge(k, m, lab)),
                 legend='Z start at zero, X transfer of a part, s/f done / failed, A size added, O/r byte count / failure returned')
        else:
            lp = loops_around(g, adds[0]) if adds else []
            if not lp:
                ctx.bad('byte-count', x.inst + ' counts each part once', where(n), 'only one part is counted')
                continue
            from .lib import loop_exits
            ex = {b.id: st for b, st in loop_exits(g, adds[0])}
            lang(ctx, 'byte-count', x.inst + ' counts each part once', g, lambda k: 'X' if k in xs else 'A' if k in adds else 'Z' if k in zero else ('O' if k in outs else 'r' if k.kind == 'ret' and k.fn is g.root else None),
                 '(ZXf)*ZXs(jA)*kO|(ZXf)+r|r', edge=lambda k, m, lab: ('j' if lab == ex[k.id] else 'k') if k.id in ex and lab in (True, False) else (lambda e: e if e in ('s', 'f') else None)(x.edge(k, m, lab)),
                 legend='Z start at zero, X transfer, s/f done / failed, j/k next part / all parts, A size added, O/r byte count / failure returned')


def of_msg(g, t):
    """size of the message given as the first parameter"""
    t = g.resolve(t)
    return 0 in parms_in(g, t)


def retry_fn(ctx):
    f = ctx.fn('fair::mq::zmq::ShouldRetry')
    g = ctx.graph(f)
    F = Facts(g)
    P = lambda t: parm_idx(g, t)

    def edge(n, m, lab):
        if n.kind != 'branch' or lab not in (True, False):
            return None
        k, pol = F.key(n.d['cond'])
        v = lab == pol
        if k[0] == 'op' and k[1] == '==' and any(y[:2] == ('op', '&') and any(P(z) == 0 for z in y[2:4]) and any(constval(z) == DONTWAIT for z in y[2:4]) for y in k[2:4] if isinstance(y, tuple)):
            z = next(constval(y) for y in k[2:4] if constval(y) is not None)
            return ('D' if v else 'd') if z == 0 else ('d' if v else 'D')
        if k[:2] == ('op', '&') and any(P(z) == 0 for z in k[2:4]):
            return 'd' if v else 'D'
        if k[0] == 'op' and k[1] == '<':
            a, b = k[2], k[3]
            if constval(a) == 0 and P(b) == 2:
                return 'p' if v else 'q'
            if P(a) == 2 and constval(b) == 1:
                return 'q' if v else 'p'
            if P(a) == 3 and P(b) == 2:
                return 'm' if v else 'l'
        return None

    def cl(n):
        if n.kind == 'write' and P(n.d['lhs']) == 3:
            r = n.d['rhs']
            return 'A' if r[0] == 'op' and r[1] == '+' and {P(y) for y in r[2:4]} == {3, 1} else '?'
        if n.kind == 'ret':
            c = cval(g, rv(n))
            if c in (0, 1):
                return 'R' if c else 'r'
            k, pol = F.key(rv(n))
            if k[0] == 'op' and k[1] == '<' and P(k[2]) == 3 and P(k[3]) == 2:
                return 'c' if pol else '?'
            return '?'
        return None
    lang(ctx, 'retry', 'ShouldRetry', g, cl, 'dr|DqR|DpA(lr|mR|c)', edge=edge, legend='d/D do-not-wait set or not, p/q timeout positive or not, A elapsed time advanced, l/m timeout reached or not, R/r retry / give up')


def errors_fn(ctx):
    f = ctx.fn('fair::mq::zmq::HandleErrors')
    g = ctx.graph(f)
    codes = codes_of(ctx)
    want = next(v for k, v in codes.items() if short(k) == 'error')
    rs = ret_values(g)
    ctx.ob('error-code', 'HandleErrors', bool(rs) and all(cval(g, rv(n)) == want for n in rs), f.loc(), 'a failed transfer is not reported as error')
    vals = {short(k): v for k, v in codes.items()}
    ctx.ob('error-code', 'codes are negative and distinct', all(vals.get(k, 0) < 0 for k in ('error', 'timeout', 'interrupted')) and len({vals[k] for k in ('error', 'timeout', 'interrupted')}) == 3, f.loc(), 'codes are %s' % vals)


# ------------------------------------------------------------------ C16 counters

COUNT = ('operator++', 'operator+=', 'fetch_add', 'operator=', 'store', 'operator--', 'operator-=', 'fetch_sub', 'exchange')


@prop('C16', UNIT)
def c16(ctx):
    """transfer counters"""
    for tr, f, nm, multi in transfer_fns(ctx):
        x = Xfer(ctx, tr, f, nm, multi)
        g = x.g
        mine = nm[:1] == 'S' and 'Tx' or 'Rx'
        outs = [n for n in ret_values(g) if n.fn is g.root and x.ret(n) == 'O']

        def cl(n):
            if n in x.D:
                return 'D'
            if n.kind == 'ret' and n.fn is g.root:
                return 'O' if x.ret(n) == 'O' else 'e'
            if n.kind == 'call' and short(n.d['q']) in COUNT and n.d.get('obj') is not None:
                q = fldq(g.resolve(n.d['obj']))
                if q not in x.cnt.values():
                    return None
                if q == x.cnt['Messages' + mine]:
                    return 'm' if short(n.d['q']) == 'operator++' or short(n.d['q']) in ('operator+=', 'fetch_add') and cval(g, n.d['args'][0]) == 1 else '!'
                if q == x.cnt['Bytes' + mine]:
                    return 'b' if short(n.d['q']) in ('operator+=', 'fetch_add') and same_amount(g, n.d['args'][0], outs) else '!'
                return '!'
            return None
        lang(ctx, 'counted', x.inst, g, cl, '(mb|bm)O|DO|e', legend='m one message counted, b returned byte count added, O byte count returned, D left to the single transfer, e failure returned, ! another change of a counter')
    # readers
    for tr in TRS:
        for k in ('BytesTx', 'BytesRx', 'MessagesTx', 'MessagesRx'):
            for q, want in ((sockq(tr) + '::Get' + k, sockq(tr) + '::f' + k),):
                for f in ctx.fns(q):
                    if not f.body:
                        continue
                    g = ctx.graph(f)
                    rs = ret_values(g)
                    ctx.ob('counter-read', '%s Get%s' % (tr, k), bool(rs) and all(counter_of(g, rv(n)) == want for n in rs), f.loc(), 'returns %s' % [show(g.resolve(rv(n))) for n in rs])
    for k in ('BytesTx', 'BytesRx', 'MessagesTx', 'MessagesRx'):
        f = ctx.fn('fair::mq::Channel::Get' + k)
        g = ctx.graph(f)
        rs = ret_values(g)
        ctx.ob('counter-read', 'Channel Get' + k, bool(rs) and all(strip(g.resolve(rv(n)))[0] == 'call' and short(strip(g.resolve(rv(n)))[1]) == 'Get' + k for n in rs), f.loc(), 'returns %s' % [show(g.resolve(rv(n))) for n in rs])
    # start at zero, changed nowhere else
    for tr in TRS:
        c = ctx.cls(sockq(tr))
        names = {sockq(tr) + '::f' + k for k in ('MessagesTx', 'BytesTx', 'MessagesRx', 'BytesRx')}
        fs = [f for f in ctx.P.fns.values() if f.clsq == sockq(tr) and f.body]
        for f in fs:
            if ctx.P.serves(f, lambda h: h.name in ('Send', 'Receive') and h.clsq == sockq(tr)):
                continue
            g = ctx.graph(f, inline=lambda x: False)
            for n in g.nodes:
                if n.id not in g.live:
                    continue
                q = fldq(n.d['lhs']) if n.kind == 'write' else fldq(g.resolve(n.d['obj'])) if n.kind == 'call' and short(n.d['q']) in COUNT and n.d.get('obj') is not None else None
                if q in names:
                    ok = f.kind == 'ctor' and constval(strip_init(g, n.d['rhs'])) == 0 if n.kind == 'write' else False
                    ctx.ob('counter-start', '%s %s in %s' % (tr, short(q), f.name), ok, where(n), 'a counter is changed outside of a transfer')
        for m in c['fields'] if 'fields' in c else []:
            pass


def strip_init(g, t):
    t = g.resolve(t)
    while t[0] in ('ctor', 'call', 'init') and len([y for y in t[2:] if isinstance(y, tuple)]) == 1:
        t = [y for y in t[2:] if isinstance(y, tuple)][0]
        if t and isinstance(t[0], tuple):
            t = t[0]
    return t


def counter_of(g, t):
    t = strip(g.resolve(t))
    while t[0] == 'call' and len(t) > 2 and t[2] is not None and (short(t[1]) == 'load' or short(t[1]).startswith('operator')):
        t = strip(t[2])
    return fldq(t)


def same_amount(g, a, outs):
    a1 = strip(g.resolve(a))
    for n in outs:
        b = strip(rv(n))
        if strip(a) == b or a1 == strip(g.resolve(b)):
            return True
        if is_size(g, a) and is_size(g, b) and parms_in(g, a1) == parms_in(g, g.resolve(b)):
            return True
    return False


# ------------------------------------------------------------------ C35 socket options

OPTIONS = {'Linger': 17, 'SndBufSize': 23, 'RcvBufSize': 24, 'SndKernelSize': 11, 'RcvKernelSize': 12}


@prop('C35', UNIT)
def c35(ctx):
    """socket options"""
    for tr in TRS:
        for nm, opt in OPTIONS.items():
            for kind in ('Set', 'Get'):
                fs = [f for f in ctx.fns('%s::%s%s' % (sockq(tr), kind, nm)) if f.body]
                if not fs:
                    ctx.broken('%s::%s%s not found' % (tr, kind, nm))
                for f in fs:
                    option_fn(ctx, '%s %s%s' % (tr, kind, nm), f, kind, opt, tr)
        for nm, lib, want in (('SetOption', 'zmq_setsockopt', None), ('GetOption', 'zmq_getsockopt', None)):
            for f in [f for f in ctx.fns('%s::%s' % (sockq(tr), nm)) if f.body]:
                g = ctx.graph(f, inline=lambda x: x.name != 'getConstant')
                cs = g.find(lambda n: n.kind == 'call' and n.d['q'] in ('zmq_setsockopt', 'zmq_getsockopt'))
                inst = '%s %s' % (tr, nm)
                if not cs:
                    ctx.bad('option', inst, f.loc(), 'the option is not passed on')
                for n in cs:
                    a = [g.resolve(y) for y in n.d['args']]
                    ok = n.d['q'] == lib and fldq(a[0]) == sockq(tr) + '::fSocket' and 0 in parms_in(g, n.d['args'][1]) and 1 in parms_in(g, n.d['args'][2]) and 2 in parms_in(g, n.d['args'][3])
                    ctx.ob('option', inst, ok, where(n), 'calls %s(%s)' % (n.d['q'], ', '.join(show(y) for y in a)))
    # name -> zeromq constant
    f = ctx.fn('fair::mq::zmq::getConstant')
    from .rules_state import const_pairs
    g = ctx.graph(f)
    F = Facts(g)
    got = {}
    reached, tr_ = run(g, (), lambda n, s, fs: [s], edge=lambda n, m, lab, s: s + ((name_of(F, n, lab)),) if n.kind == 'branch' and name_of(F, n, lab) and len(s) < 3 else s)
    for n in ret_values(g):
        for fs, s in reached.get(n.id, ()):
            if s:
                got.setdefault(s[-1], set()).add(cval(g, rv(n)))
    for k, v in CONSTANTS.items():
        ctx.ob('constant', k, got.get(k) == {v}, f.loc(), '"%s" means %s, not %d' % (k, sorted(map(str, got.get(k, ()))), v))
    for k in got:
        ctx.ob('constant', k + ' is known', k in CONSTANTS or k == '', f.loc(), 'an additional name') if k not in CONSTANTS else None


CONSTANTS = {'sub': 2, 'pub': 1, 'xsub': 10, 'xpub': 9, 'push': 8, 'pull': 7, 'req': 3, 'rep': 4, 'dealer': 5, 'router': 6, 'pair': 0,
             'snd-hwm': 23, 'rcv-hwm': 24, 'snd-size': 11, 'rcv-size': 12, 'snd-more': 2, 'rcv-more': 13, 'linger': 17, 'fd': 14, 'events': 15, 'pollin': 1, 'pollout': 2, 'no-block': 1, 'snd-more no-block': 3}


def name_of(F, n, lab):
    key, pol = F.key(n.d['cond'])
    if lab == pol and key[0] in ('op', 'call'):
        ss = [s[1] for s in sub(key) if s[0] == 's']
        if len(ss) == 1 and ('==' in key[:2] or key[0] == 'call'):
            return ss[0]
    return None


def option_fn(ctx, inst, f, kind, opt, tr):
    g = ctx.graph(f, inline=lambda x: True)
    lib = 'zmq_%ssockopt' % kind.lower()
    cs = g.find(lambda n: n.kind == 'call' and n.d['q'] in ('zmq_setsockopt', 'zmq_getsockopt'))
    if not cs:
        ctx.bad('option', inst, f.loc(), 'no option is %s' % kind.lower())
        return
    for n in cs:
        a = n.d['args']
        ok = n.d['q'] == lib and cval(g, a[1]) == opt and fldq(g.resolve(a[0])) == sockq(tr) + '::fSocket'
        val = [s for s in sub(a[2]) if s[0] == 'var']
        if kind == 'Set':
            ok = ok and 0 in parms_in(g, a[2])
        else:
            # returns the variable given to the library
            ok = ok and len(val) == 1 and all(strip(rv(r)) == val[0] for r in ret_values(g) if r.fn is g.root)
        ctx.ob('option', inst, ok, where(n), 'calls %s(%s)' % (n.d['q'], ', '.join(show(g.resolve(y)) for y in a)))
    fails(ctx, inst, g, cs)


def fails(ctx, inst, g, cs):
    """a refused option is reported"""
    F = Facts(g)

    def edge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            tm = {y for c in cs for y in (c.d['term'], g.resolve(c.d['term']))}
            hit = lambda y: y in tm or strip(g.resolve(y)) in tm
            if key[0] == 'op' and len(key) == 4 and key[1] in ('<', '=='):
                a, b = key[2], key[3]
                if key[1] == '<' and hit(a) and constval(b) == 0:
                    return 'f' if v else 's'
                if key[1] == '==' and (hit(a) or hit(b)):
                    z = constval(b) if hit(a) else constval(a)
                    if z == 0:
                        return 's' if v else 'f'
                    if z == -1:
                        return 'f' if v else 's'
            if hit(key):
                return 'f' if v else 's'
        return None
    lang(ctx, 'option-failure', inst, g, lambda n: 'X' if n in cs else None, '(Xs)+r|(Xs)*(Xf?)?t', edge=edge, ends=('exit', 'exc'), endsym={'exit': 'r', 'exc': 't'}, legend='X library call, s/f accepted / refused, r/t returns / throws')


# ------------------------------------------------------------------ C14 interruption

DV = 'fair::mq::Device'


@prop('C14', UNIT + ['fairmq/Device.cxx'])
def c14(ctx):
    """interruptible transfers"""
    for tr in TRS:
        for f in [f for f in ctx.fns(sockq(tr) + '::Socket') if f.body and f.kind == 'ctor' and len(f.params) > 2]:
            g = ctx.graph(f, inline=lambda x: x.name not in ('makeMonitorSocket',))
            for opt, letter in ((28, 'send'), (27, 'receive')):
                cs = g.find(lambda n: n.kind == 'call' and n.d['q'] == 'zmq_setsockopt' and cval(g, n.d['args'][1]) == opt)
                good = [n for n in cs if fldq(g.resolve(n.d['args'][0])) == sockq(tr) + '::fSocket' and any(fldq(s) == sockq(tr) + '::fTimeout' for s in sub(g.resolve(n.d['args'][2])))]
                ctx.ob('bounded-attempt', '%s %s attempts are bounded' % (tr, letter), len(good) >= 1 and len(good) == len(cs), f.loc(), 'an attempt to %s may block forever' % letter)
                lang(ctx, 'bounded-attempt', '%s %s bound is set for every socket' % (tr, letter), g, lambda n: 'B' if n in good else None, 'B', legend='B bound set')
            ini = g.find(lambda n: n.kind == 'write' and fldq(n.d['lhs']) == sockq(tr) + '::fTimeout')
            ctx.ob('bounded-attempt', '%s bound is positive' % tr, bool(ini) and all((lambda v: isinstance(v, int) and 0 < v <= 1000)(constval(strip_init(g, n.d['rhs']))) for n in ini), f.loc(), 'the bound of an attempt is not between 1 ms and 1 s')
        for f in [f for f in ctx.P.fns.values() if f.clsq == sockq(tr) and f.body and not ctx.P.serves(f, lambda h: h.clsq == sockq(tr) and h.kind == 'ctor')]:
            g = ctx.graph(f, inline=lambda x: False)
            for n in g.nodes:
                if n.id in g.live and n.kind == 'write' and fldq(n.d['lhs']) == sockq(tr) + '::fTimeout':
                    ctx.bad('bounded-attempt', '%s bound changed in %s' % (tr, f.name), where(n), 'the bound of an attempt is changed')
    for tr, f, nm, multi in transfer_fns(ctx):
        x = Xfer(ctx, tr, f, nm, multi)
        g = x.g
        lang(ctx, 'asks', x.inst, g, lambda n: 'X' if n in x.X else None, '((Xs)*XfJ)*((Xs)*(Xf[I]?)?)', edge=lambda n, m, lab: (lambda e: e if e in tuple('sfIJ') else None)(x.edge(n, m, lab)), ends=('exit',), legend='X attempt, s/f done / failed, I/J interrupted or not')
        for n in x.I:
            o = fldq(g.resolve(n.d['obj'])) if n.d.get('obj') is not None else None
            ctx.ob('asks', x.inst + ' asks its transport', o in (sockq(tr) + '::fCtx', sockq(tr) + '::fManager'), where(n), 'asks %s' % o)
    # the flag
    for cq, tq, mem in (('fair::mq::zmq::Context', 'fair::mq::zmq::TransportFactory', 'fCtx'), ('fair::mq::shmem::Manager', 'fair::mq::shmem::TransportFactory', 'fManager')):
        fl = cq + '::fInterrupted'
        ty = [m['t'] for m in ctx.cls(cq)['fields'] if m['n'] == 'fInterrupted']
        ctx.ob('flag', short(cq) + ' flag is atomic', bool(ty) and 'atomic' in ty[0], ctx.cls(cq).get('file', cq), 'the flag has type %s' % ty)
        for nm, val in (('Interrupt', 1), ('Resume', 0)):
            f = ctx.fn(cq + '::' + nm)
            g = ctx.graph(f)
            sets = flag_sets(g, fl)
            lang(ctx, 'flag', '%s %s' % (cq[10:], nm), g, lambda n: ('S' if sets[n.id] == val else '!') if n.id in sets else None, '!?S', legend='S flag set to %d' % val)
            f = ctx.fn(tq + '::' + nm)
            g = ctx.graph(f)
            cs = g.find(lambda n: n.kind == 'call' and n.d['q'] == cq + '::' + nm)
            sets = flag_sets(g, fl)
            lang(ctx, 'flag', '%s %s' % (tq[10:], nm), g, lambda n: 'S' if n in cs else None, 'S', legend='S passed on')
        f = ctx.fn(cq + '::Interrupted')
        g = ctx.graph(f)
        ctx.ob('flag', cq[10:] + ' Interrupted', all(counter_of(g, rv(n)) == fl for n in ret_values(g)), f.loc(), 'returns something else')
        # nobody else touches it
        for f in ctx.P.fns.values():
            if f.clsq == cq and f.body and not f.kind == 'ctor' and not ctx.P.serves(f, lambda h: h.clsq == cq and h.name in ('Interrupt', 'Resume')):
                g = ctx.graph(f, inline=lambda x: False)
                st = flag_sets(g, fl)
                if st:
                    ctx.bad('flag', '%s %s' % (cq[10:], f.name), f.loc(), 'changes the interruption flag')
            if f.clsq == cq and f.body and f.kind == 'ctor':
                g = ctx.graph(f, inline=lambda x: False)
                ini = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and fldq(n.d['lhs']) == fl]
                if ini:
                    ctx.ob('flag', cq[10:] + ' starts not interrupted', all(constval(strip_init(g, n.d['rhs'])) == 0 for n in ini), where(ini[0]), 'a new transport is interrupted')
    device_side(ctx)
    alloc_wait(ctx)


def flag_sets(g, fl):
    out = {}
    for n in g.nodes:
        if n.id in g.live and n.kind == 'call' and short(n.d['q']) in ('store', 'operator=', 'exchange') and n.d.get('obj') is not None and fldq(g.resolve(n.d['obj'])) == fl:
            out[n.id] = cval(g, n.d['args'][0])
    return out


def device_side(ctx):
    f = [f for f in ctx.fns(DV + '::Device') if f.body and len(f.params) == 2 and 'ProgOptions' in f.params[0]['t'] and '*' in f.params[0]['t']]
    if len(f) != 1:
        ctx.broken('device constructor not found')
        return
    f = f[0]
    g = ctx.graph(f, inline=lambda x: x.clsq == DV and x.name not in ('SubscribeToNewTransition',))
    for nm, call, meth in (('a requested transition interrupts', 'SubscribeToNewTransition', 'Interrupt'), ('a new state resumes', 'PrepareState', 'Resume')):
        cs = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == call)
        ctx.ob('device', nm, len(cs) == 1, f.loc(), 'not registered exactly once')
        lang(ctx, 'device', nm + ', registered before the machine starts', g, lambda n: 'R' if n in cs else 'S' if n.kind == 'call' and short(n.d['q']) == 'Start' else None, 'RS', legend='R registered, S machine started')
        for n in cs:
            lf = lam_fn(ctx, g, n.d['args'][-1])
            if not lf:
                ctx.bad('device', nm, where(n), 'the callback is not known')
                continue
            lg = ctx.graph(lf, inline=lambda x: x.clsq == DV)
            cc = lg.find(lambda n: n.kind == 'call' and n.d['q'] == 'fair::mq::TransportFactory::' + meth or n.kind == 'call' and short(n.d['q']) == meth)
            each(ctx, 'device', nm + ' every transport', lg, cc, lambda t: fldq(t) == DV + '::fTransports', where(n), meth)


def alloc_wait(ctx):
    """waiting for shared memory ends on interruption"""
    f = ctx.fn('fair::mq::shmem::Manager::Allocate')
    g = ctx.graph(f, inline=lambda x: False)
    F = Facts(g)
    sl = g.find(lambda n: n.kind == 'call' and short(n.d['q']) in ('sleep_for', 'sleep_until'))
    It = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'Interrupted')
    if not sl:
        ctx.ob('alloc-wait', 'allocation does not wait', True, f.loc(), '')
        return
    lang(ctx, 'alloc-wait', 'waiting for memory', g, lambda n: 'W' if n in sl else None, '(WJ)*r|(WJ)*(WI?)?t', endsym={'exit': 'r', 'exc': 't'}, edge=lambda n, m, lab: call_result_edge(g, F, n, lab, It, 'I', 'J'), ends=('exit', 'exc'), legend='W wait, I/J interrupted or not, r/t returns / throws')
