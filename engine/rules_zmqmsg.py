"""C17 zeromq messages and sockets own their library objects, C38 connected peers."""
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .rules_channel import lam_fn, call_result_edge
from .rules_transport import sockq, transfer_fns, Xfer, TRS, UNIT, is_size
from .witness import asserts

ZM = 'fair::mq::zmq::Message'
INIT = ('zmq_msg_init', 'zmq_msg_init_size', 'zmq_msg_init_data')


def kinds(f):
    out = {}
    for i, p in enumerate(f.params):
        t = p['t']
        if 'UnmanagedRegion' in t:
            out['region'] = i
        elif 'Alignment' in t:
            out['align'] = i
        elif 'unsigned long' in t:
            out['size'] = i
        elif t.replace('const ', '').strip() == 'void *' or t.strip() == 'void *':
            out['hint' if 'data' in out else 'data'] = i
        elif '(' in t or 'FreeFn' in t:
            out['ffn'] = i
    return out


def of_fmsg(g, t):
    """the library object of this message"""
    t = strip(g.resolve(t))
    return fldq(t) == ZM + '::fMsg' and t[1][0] == 'this' if t[0] == 'fld' else False


def frees_hint(ctx, g, t):
    f = lam_fn(ctx, g, t)
    if f is None:
        return False
    lg = ctx.graph(f)
    bad, _ = words(lg, lambda n: None if n.kind != 'call' else 'F' if n.d['q'] in ('free', 'std::free') and parm_idx(lg, n.d['args'][0]) == 1 else '!' if n.d['q'] in ('free', 'std::free') else None, 'F')
    return not bad


def is_alignment(g, t, i):
    """exactly the value of the alignment parameter"""
    for _ in range(6):
        t = strip(g.resolve(t))
        if parm_idx(g, t) == i:
            return True
        if t[0] == 'fld' and short(t[2]) == 'alignment':
            t = t[1]
        elif t[0] == 'ctor' and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'call' and 'operator' in short(t[1]) and t[2] is not None and not t[3]:
            t = t[2]
        else:
            return False
    return False


def aligned_pair(g, first, second, al, size):
    """second = first + (al - first % al) [% al], first = malloc(size + al)"""
    a = g.resolve(first)
    b = g.resolve(second)
    if a[0] == 'fld' or b[0] == 'fld':
        a, b = pair_part(a), pair_part(b)
    a, b = strip(a), strip(b)
    if b[:2] != ('op', '+') or strip(b[2]) != a:
        return False
    x = a
    if a[0] == 'var':
        # one allocation, or nothing (then there is no buffer to use)
        ds = [strip(g.resolve(d)) for d in g.defs.get(a[1], ()) if strip(d)[0] != 'null']
        a = ds[0] if len(ds) == 1 else a
    if a[0] != 'call' or short(a[1]) not in ('malloc', 'operator new'):
        return False
    room = strip(a[3][0]) if isinstance(a[3], tuple) and a[3] and isinstance(a[3][0], tuple) else ('x', '')
    if room[:2] != ('op', '+') or not any(al(y) for y in room[2:4]) or not any(size(y) for y in room[2:4]):
        return False
    off = strip(b[3])
    if off[:2] == ('op', '%') and al(off[3]):
        off = strip(off[2])
    if off[:2] != ('op', '-') or not al(off[2]):
        return False
    m = strip(off[3])
    return m[:2] == ('op', '%') and strip(m[2]) == x and al(m[3])


def pair_part(t):
    t = strip(t)
    if t[0] == 'fld' and short(t[2]) in ('first', 'second'):
        p = strip(t[1])
        a = p[2] if p[0] in ('ctor',) else None
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple):
            return a[0 if short(t[2]) == 'first' else 1]
    return t


@prop('C17', UNIT)
def c17(ctx):
    """zeromq messages"""
    cls = ctx.cls(ZM)
    ctors = [f for f in ctx.fns(ZM + '::Message') if f.body and f.kind == 'ctor']
    reb = [f for f in ctx.fns(ZM + '::Rebuild') if f.body]
    if len(ctors) < 6 or len(reb) < 5:
        ctx.broken('constructors or Rebuild of the zeromq message not found')
    for f in ctors + reb:
        one_init(ctx, f)
    for f in [f for f in ctx.fns(ZM + '::~Message') if f.body]:
        g = ctx.graph(f)
        lang(ctx, 'closed', 'destroyed', g, lambda n: 'c' if closes(g, n) else None, 'c', legend='c library message closed')
    used_size(ctx)
    simple_ones(ctx)
    realign(ctx)
    wrapper(ctx)
    sockets(ctx)
    asserts(ctx, 'not-copied', ['cstring', 'fairmq/Transports.h', 'fairmq/TransportFactory.h', 'fairmq/zeromq/Message.h', 'fairmq/zeromq/Socket.h', 'fairmq/shmem/Socket.h', 'fairmq/zeromq/ZMsg.h'], [
        ('%s cannot be copied' % c, '!std::is_copy_constructible_v<%s> && !std::is_copy_assignable_v<%s>' % (c, c)) for c in
        (ZM, 'fair::mq::zmq::Socket', 'fair::mq::shmem::Socket', 'fair::mq::zmq::ZMsg')], 'fairmq/zeromq/Message.h')


def closes(g, n):
    return n.kind == 'call' and n.d['q'] == 'zmq_msg_close' and of_fmsg(g, n.d['args'][0])


def one_init(ctx, f):
    g = ctx.graph(f)
    F = Facts(g)
    k = kinds(f)
    ctor = f.kind == 'ctor'
    inst = '%s(%s)' % ('created' if ctor else 'rebuilt', ', '.join(sorted(k)))
    inits = g.find(lambda n: n.kind == 'call' and n.d['q'] in INIT)

    def cl(n):
        if n in inits:
            return 'i' if of_fmsg(g, n.d['args'][0]) else '!'
        if closes(g, n):
            return 'c'
        if n.kind == 'write' and of_fmsg(g, n.d['lhs']):
            r = strip(n.d['rhs'])
            return 'f' if r[0] == 'null' or constval(r) == 0 else 'm'
        if n.kind == 'call' and n.d.get('obj') is not None and of_fmsg(g, n.d['obj']) and short(n.d['q']) in ('reset', 'release'):
            if short(n.d['q']) == 'reset' and n.d['args'] and not (strip(n.d['args'][0])[0] == 'null'):
                return 'm'
            return 'f' if short(n.d['q']) == 'reset' else '!'
        return None
    lang(ctx, 'one-init', inst, g, cl, 'f?mi' if ctor else 'cf?mi|cf?i' if False else 'cf?mi', legend='c old library message closed, f discarded, m new one created, i initialised, ! something else')
    # how
    al = lambda t: 'align' in k and (fldq(strip(g.resolve(t))) == ZM + '::fAlignment' or is_alignment(g, t, k['align']))

    def aedge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False) and 'align' in k:
            key, pol = F.key(n.d['cond'])
            if key[0] == 'op' and key[1] == '==' and any(al(y) for y in key[2:4]) and any(constval(y) == 0 for y in key[2:4]):
                return 'z' if lab == pol else 'a'
            if key[0] == 'op' and key[1] == '<' and constval(key[2]) == 0 and al(key[3]):
                return 'a' if lab == pol else 'z'
            if al(key) and key[0] in ('fld', 'parm', 'var'):
                return 'a' if lab == pol else 'z'
        return None

    def how(n):
        if n not in inits:
            return None
        q, a = n.d['q'], n.d['args']
        P = lambda i: parm_idx(g, a[i])
        if q == 'zmq_msg_init':
            return 'E'
        if q == 'zmq_msg_init_size':
            return 'S' if P(1) == k.get('size') and P(1) is not None else '!'
        if 'ffn' in k:
            return 'D' if (P(1), P(2), P(3), P(4)) == (k['data'], k['size'], k['ffn'], k.get('hint')) else '!'
        if 'align' in k and P(2) == k.get('size'):
            return 'A' if frees_hint(ctx, g, a[3]) and aligned_pair(g, a[4], a[1], al, lambda t: parm_idx(g, t) == k['size']) else '?'
        return '!'
    want = 'D' if 'ffn' in k else 'z?S' if 'region' in k or 'size' in k and 'align' not in k else '(zS|aA)' if 'size' in k else '[za]?E'
    lang(ctx, 'how', inst, g, how, want, edge=aedge, legend='z/a alignment is zero or not, E empty, S own buffer of the given size, D the given data, size, release function and hint, A aligned buffer of the given size, released by its deleter')
    # alignment

    def acl(n):
        if n.kind == 'write' and fldq(n.d['lhs']) == ZM + '::fAlignment' and n.d['lhs'][1][0] == 'this':
            return 'z' if cval(g, n.d['rhs']) == 0 else 'a' if 'align' in k and is_alignment(g, n.d['rhs'], k['align']) else '!'
        return None
    lang(ctx, 'alignment-kept', inst, g, acl, '[za]*a' if 'align' in k else 'z+' if not ctor else 'z*', legend='a the requested alignment stored, z alignment cleared')
    if 'region' in k:
        region_msg(ctx, f, g, F, k, inits)


def region_msg(ctx, f, g, F, k, inits):
    cb = lambda n: n.kind == 'call' and short(n.d['q']) == 'operator()' and n.d.get('obj') is not None and short(fldq(g.resolve(n.d['obj'])) or '') in ('fBulkCallback', 'fCallback')
    cps = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'memcpy')
    for n in cps:
        a = n.d['args']
        d = strip(g.resolve(a[0]))
        ok = d[0] == 'call' and short(d[1]) == 'zmq_msg_data' and parm_idx(g, a[1]) == k['data'] and parm_idx(g, a[2]) == k['size']
        ctx.ob('region-data', 'copied from the region', ok, where(n), 'copies %s' % ', '.join(show(g.resolve(y)) for y in a))

    def cl(n):
        if n in inits:
            return 'i'
        if n in cps:
            return 'k'
        if cb(n):
            q = short(fldq(g.resolve(n.d['obj'])))
            if q == 'fBulkCallback':
                vs = {s for a in n.d['args'] for s in sub(a) if s[0] == 'var'}
                for fl, i in (('ptr', k['data']), ('size', k['size']), ('hint', k['hint'])):
                    ws = [m for m in g.nodes if m.id in g.live and m.kind == 'write' and m.d['lhs'][0] == 'fld' and m.d['lhs'][1] in vs and short(m.d['lhs'][2]) == fl]
                    if len(ws) != 1 or parm_idx(g, ws[0].d['rhs']) != i:
                        return '!'
                return 'B'
            return 'S' if [parm_idx(g, a) for a in n.d['args']] == [k['data'], k['size'], k['hint']] else '!'
        return None

    def edge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            for s in [key] + list(sub(key)):
                q = short(fldq(s) or '')
                if q in ('fBulkCallback', 'fCallback'):
                    neg = key[0] == 'op' and key[1] == '=='
                    v2 = v != neg
                    return ('b' if v2 else 'n') if q == 'fBulkCallback' else ('s' if v2 else 'm')
        return None
    lang(ctx, 'region-data', 'released right after the copy', g, cl, 'ik([sm]?bB|([sm]?n|n)sS|nm|mn)', edge=edge, legend='i initialised, k data copied, b/n bulk callback or not, s/m callback or not, B/S given data, size and hint given back')


def used_size(ctx):
    f = [f for f in ctx.fns(ZM + '::SetUsedSize') if f.body][0]
    g = ctx.graph(f)
    F = Facts(g)
    own = lambda t: is_size(g, t) and any(of_fmsg(g, s) for s in sub(g.resolve(t)))
    P0 = lambda t: parm_idx(g, t) == 0
    I = g.find(lambda n: n.kind == 'call' and n.d['q'] == 'zmq_msg_init_data')

    def edge(n, m, lab):
        if n.kind != 'branch' or lab not in (True, False):
            return None
        key, pol = F.key(n.d['cond'])
        v = lab == pol
        if key[0] == 'op' and key[1] in ('<', '=='):
            x, y = key[2], key[3]
            if key[1] == '==' and (own(x) and P0(y) or own(y) and P0(x)):
                return 'a' if v else 'A'
            if own(x) and P0(y):
                return 'b' if v else 'B'
            if own(y) and P0(x):
                return 'c' if v else 'C'
        tm = {z for c in I for z in (c.d['term'], g.resolve(c.d['term']))}
        if key[0] == 'op' and key[1] == '==' and any(z in tm for z in key[2:4]) and any(constval(z) == 0 for z in key[2:4]):
            return 's' if v else 'f'
        return None

    def cl(n):
        if n in I:
            a = n.d['args']
            ok = strip(a[0])[0] == 'var' and P0(a[2]) and of_fmsg(g, a[4]) and any(s[0] == 'call' and short(s[1]) == 'zmq_msg_data' for s in g.sources(a[1]))
            return 'I' if ok and view_deleter(ctx, g, a[3]) else '!'
        if n.kind == 'call' and n.d.get('obj') is not None and of_fmsg(g, n.d['obj']):
            q = short(n.d['q'])
            return 'R' if q == 'release' else 'W' if q in ('swap', 'operator=') else 'X' if q == 'reset' and n.d['args'] and strip(n.d['args'][0])[0] != 'null' else '!' if q == 'reset' else None
        if n.kind == 'ret' and n.fn is g.root:
            return {1: 'T', 0: 'F'}.get(cval(g, rv(n)), '?')
        return None
    q = '(c|AB|BA|Ac|Bc)'
    lang(ctx, 'used-size', 'SetUsedSize', g, cl, 'AC?aT|(a|Ba|Ca|CB|BC)T|(b|Ab|Cb|AC|CA)F|' + q + 'I(s(RW|RX)T|fF)', edge=edge,
         legend='a/b/c equal to / larger than / smaller than the present size (capitals: not), I view of the smaller size created over the old message, s/f done / failed, R old one given to the view, W/X view taken over, T/F reported')


def view_deleter(ctx, g, t):
    f = lam_fn(ctx, g, t)
    if f is None:
        return False
    lg = ctx.graph(f)

    def cl(n):
        if n.kind == 'call' and n.d['q'] == 'zmq_msg_close':
            return 'c' if parm_idx(lg, n.d['args'][0]) == 1 else '!'
        if n.kind == 'delete':
            return 'd' if 1 in parms_in(lg, n.d['term']) else '!'
        return None
    bad, _ = words(lg, cl, 'cd')
    return not bad


def simple_ones(ctx):
    f = [f for f in ctx.fns(ZM + '::Copy') if f.body][0]
    g = ctx.graph(f)
    cs = g.find(lambda n: n.kind == 'call' and n.d['q'] == 'zmq_msg_copy')
    lang(ctx, 'copy', 'Copy', g, lambda n: ('k' if of_fmsg(g, n.d['args'][0]) and 0 in parms_in(g, n.d['args'][1]) else '!') if n in cs else None, 'k', legend='k given message shared')
    f = [f for f in ctx.fns(ZM + '::GetSize') if f.body][0]
    g = ctx.graph(f)
    for n in ret_values(g):
        t = strip(g.resolve(rv(n)))
        ctx.ob('access', 'GetSize', t[0] == 'call' and short(t[1]) == 'zmq_msg_size' and any(of_fmsg(g, s) for s in sub(t)), where(n), 'returns %s' % show(t))
    f = [f for f in ctx.fns(ZM + '::GetData') if f.body][0]
    g = ctx.graph(f)
    F = Facts(g)
    for n in ret_values(g):
        t = strip(g.resolve(rv(n)))
        if t[0] == 'null' or constval(t) == 0:
            ok = always(g, n, lambda k, v: k[0] == 'op' and (k[1] == '<' and constval(k[2]) == 0 and is_size(g, k[3]) and not v or k[1] == '==' and v and any(is_size(g, y) for y in k[2:4]) and any(constval(y) == 0 for y in k[2:4])))
            ctx.ob('access', 'no data only without size', ok, where(n), 'returns no data for a message that has data')
        else:
            ctx.ob('access', 'GetData', t[0] == 'call' and short(t[1]) == 'zmq_msg_data' and any(of_fmsg(g, s) for s in sub(t)), where(n), 'returns %s' % show(t))


def realign(ctx):
    f = [f for f in ctx.fns(ZM + '::Realign') if f.body][0]
    g = ctx.graph(f, inline=lambda x: x.name != 'Rebuild')
    F = Facts(g)
    cps = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'memcpy')
    rb = g.find(lambda n: n.kind == 'call' and n.d['q'] == ZM + '::Rebuild')
    fal = lambda t: any(fldq(s) == ZM + '::fAlignment' for s in g.sources(t))

    def edge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            if key[:2] == ('op', '==') and any(fldq(y) == ZM + '::fAlignment' for y in key[2:4]) and any(constval(y) == 0 for y in key[2:4]):
                return 'z' if v else 'Z'
            if key[:2] == ('op', '%') and fal(key[3]):
                return 'U' if v else 'u'
            if key[:2] == ('op', '==') and any(y[:2] == ('op', '%') for y in key[2:4]) and any(constval(y) == 0 for y in key[2:4]):
                return 'u' if v else 'U'
        return None

    def cl(n):
        if n in cps:
            a = n.d['args']
            src = any(s[0] == 'call' and short(s[1]) == 'zmq_msg_data' for s in g.sources(a[1]))
            return 'M' if src and is_size(g, a[2]) else '!'
        if n in rb:
            a = n.d['args']
            ok = len(a) == 4 and is_size(g, a[1]) and frees_hint(ctx, g, a[2]) and aligned_pair(g, a[3], a[0], fal, lambda t: is_size(g, t)) and any(strip(g.resolve(c.d['args'][0])) == strip(g.resolve(a[0])) for c in cps)
            return 'R' if ok else '!'
        if n.kind == 'write' and fldq(n.d['lhs']) == ZM + '::fAlignment':
            r = strip(n.d['rhs'])
            ok = r[0] == 'var' and all(fldq(d) == ZM + '::fAlignment' for d in g.defs.get(r[1], [()]))
            return 'a' if ok else '!'
        return None
    lang(ctx, 'realign', 'Realign', g, cl, 'z|Zu?|ZUMRa', edge=edge, legend='z/Z no alignment / alignment requested, u/U data aligned / not, M copied, R rebuilt from the aligned copy, a alignment restored')
    # the saved alignment is read before the message is rebuilt
    for n in g.nodes:
        if n.id in g.live and n.kind == 'write' and fldq(n.d['lhs']) == ZM + '::fAlignment':
            r = strip(n.d['rhs'])
            if r[0] == 'var':
                ds = [m for m in g.nodes if m.id in g.live and m.kind in ('decl', 'write') and (m.d.get('var') == r or m.d.get('lhs') == r)]
                after = [m for m in ds for b in rb if reachable(g, b, m)]
                ctx.ob('realign', 'alignment saved before', not after, where(n), 'the alignment is saved after it was cleared')
    # every received message is realigned
    for tr, f, nm, multi in transfer_fns(ctx):
        if tr != 'zmq' or nm != 'Receive':
            continue
        x = Xfer(ctx, tr, f, nm, multi)
        xg = x.g
        ra = xg.find(lambda n: n.kind == 'call' and n.d['q'] == ZM + '::Realign')
        lang(ctx, 'realign', x.inst + ' realigns', xg, lambda n: 'X' if n in x.X else 'G' if n in ra else None, '((Xf)|(XsG))*', edge=lambda n, m, lab: (lambda e: e if e in ('s', 'f') else None)(x.edge(n, m, lab)), legend='X attempt, s/f received / failed, G realigned')


def reachable(g, a, b):
    seen, st = set(), [m for m, l in a.succ if l != 'exc']
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n is b:
            return True
        st.extend(m for m, l in n.succ if l != 'exc')
    return False


def wrapper(ctx):
    """ZMsg"""
    Z = 'fair::mq::zmq::ZMsg'
    cs = [f for f in ctx.P.fns.values() if f.clsq == Z and f.body and f.kind == 'ctor']
    if len(cs) < 2:
        ctx.broken('zmq::ZMsg not found')
    for f in cs:
        g = ctx.graph(f)
        own = lambda t: any(fldq(s) == Z + '::fMsg' and s[1][0] == 'this' for s in sub(g.resolve(t)))

        def cl(n):
            if n.kind != 'call':
                return None
            a = n.d['args']
            if n.d['q'] in INIT:
                if not own(a[0]):
                    return '!'
                if n.d['q'] == 'zmq_msg_init_size':
                    return 'i' if parm_idx(g, a[1]) == 0 else '!'
                if n.d['q'] == 'zmq_msg_init_data':
                    return 'i' if [parm_idx(g, y) for y in a[1:]] == [0, 1, 2, 3] else '!'
                return 'i'
            return '!' if n.d['q'] == 'zmq_msg_close' and own(a[0]) else None
        lang(ctx, 'wrapper', 'ZMsg(%s)' % ', '.join(p['t'] for p in f.params), g, cl, 'i', legend='i initialised')
    d = [f for f in ctx.fns(Z + '::~ZMsg') if f.body]
    for f in d:
        g = ctx.graph(f)
        lang(ctx, 'wrapper', '~ZMsg', g, lambda n: 'c' if n.kind == 'call' and n.d['q'] == 'zmq_msg_close' and any(fldq(s) == Z + '::fMsg' for s in sub(g.resolve(n.d['args'][0]))) else None, 'c', legend='c closed')


def sockets(ctx):
    for tr in TRS:
        C = sockq(tr)
        for f in [f for f in ctx.fns(C + '::Close') if f.body] + [f for f in ctx.fns(C + '::~Socket') if f.body]:
            g = ctx.graph(f)
            F = Facts(g)
            for fl in ('fSocket', 'fMonitorSocket'):
                is_f = lambda t: fldq(g.resolve(t)) == C + '::' + fl

                def cl(n):
                    if n.kind == 'call' and n.d['q'] == 'zmq_close' and is_f(n.d['args'][0]):
                        return 'C'
                    if n.kind == 'write' and fldq(n.d['lhs']) == C + '::' + fl:
                        return 'N' if strip(n.d['rhs'])[0] == 'null' or constval(n.d['rhs']) == 0 else '!'
                    return None

                def edge(n, m, lab):
                    if n.kind == 'branch' and lab in (True, False):
                        key, pol = F.key(n.d['cond'])
                        if fldq(key) == C + '::' + fl:
                            return 'p' if lab == pol else 'q'
                        if key[:2] == ('op', '==') and any(fldq(y) == C + '::' + fl for y in key[2:4]) and any(y[0] == 'null' for y in key[2:4]):
                            return 'q' if lab == pol else 'p'
                    return None
                lang(ctx, 'socket-closed', '%s %s %s' % (tr, f.name, fl), g, cl, 'pCN|qN?', edge=edge, legend='p/q socket open or not, C closed, N forgotten')


# ------------------------------------------------------------------ C38 connected peers

@prop('C38', UNIT)
def c38(ctx):
    f = ctx.fn('fair::mq::zmq::updateNumberOfConnectedPeers')
    g = ctx.graph(f, inline=lambda x: False)
    F = Facts(g)
    ev = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'getMonitorEvent')
    ctx.ob('events', 'reads the given monitor', bool(ev) and all(parm_idx(g, n.d['args'][0]) == 1 for n in ev), f.loc(), 'another monitor is read')
    CONN, ACC, DISC = 1, 32, 512
    cnt = ('parm', 0)

    def is_cnt(t):
        return parm_idx(g, t) == 0

    def cl(n):
        if n in ev:
            return 'E'
        if n.kind == 'write' and is_cnt(n.d['lhs']):
            r = n.d['rhs']
            if r[0] == 'op' and r[1] in ('+', '-') and constval(r[3]) == 1 and is_cnt(r[2]):
                return 'U' if r[1] == '+' else 'D'
            return '!'
        if n.kind == 'ret' and n.fn is g.root:
            return 'R' if is_cnt(rv(n)) else '!'
        return None

    def edge(n, m, lab):
        if n.kind == 'switch' and isinstance(lab, tuple):
            vs = [v for v in lab[1:] if isinstance(v, int)] if lab and isinstance(lab[0], str) else [v for v in lab if isinstance(v, int)]
            if lab and lab[0] == 'default' or not vs:
                return 'o'
            m2 = {CONN: 'c', ACC: 'c', DISC: 'd'}
            ls = {m2.get(v, 'o') for v in vs}
            return ls.pop() if len(ls) == 1 else '!'
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            tm = {z for c in ev for z in (c.d['term'], g.resolve(c.d['term']))}
            hit = lambda y: y in tm or (y[0] == 'var' and any(s in tm for s in g.sources(y)))
            if key[0] == 'op' and len(key) == 4:
                x, y = key[2], key[3]
                if key[1] == '<' and hit(x) and constval(y) == 0 or key[1] == '==' and (hit(x) and constval(y) == -1 or hit(y) and constval(x) == -1):
                    return 'x' if v else 'e'
                if key[1] == '<' and hit(y) and constval(x) == -1:
                    return 'e' if v else 'x'
                if key[1] == '==' and (hit(x) or hit(y)):
                    z = constval(y) if hit(x) else constval(x)
                    if v:
                        return {CONN: 'c', ACC: 'c', DISC: 'd'}.get(z, 'o')
                if key[1] == '<' and constval(x) == 0 and is_cnt(y):
                    return 'p' if v else 'z'
                if key[1] == '==' and (is_cnt(x) or is_cnt(y)) and 0 in (constval(x), constval(y)):
                    return 'z' if v else 'p'
            if is_cnt(key):
                return 'p' if v else 'z'
            if parm_idx(g, key) == 1 or key[:2] == ('op', '==') and any(parm_idx(g, y) == 1 for y in key[2:4]):
                null = key[0] == 'op'
                return 'n' if v == null else 'N'
        return None
    lang(ctx, 'count', 'every pending event is counted', g, cl, 'nR|N?(Ee(cU|d(pD|z)|o)?)*ExR', edge=edge, legend='n/N no monitor / monitor, E next event read, e/x event / none left, c connected or accepted, d disconnected, o other, p/z count positive / zero, U/D count up / down, R count returned')
    # all relevant events are subscribed
    f = ctx.fn('fair::mq::zmq::makeMonitorSocket')
    g = ctx.graph(f)
    ms = g.find(lambda n: n.kind == 'call' and n.d['q'] == 'zmq_socket_monitor')
    ctx.ob('events', 'monitored events', len(ms) == 1 and isinstance(cval(g, ms[0].d['args'][2]), int) and cval(g, ms[0].d['args'][2]) & (CONN | ACC | DISC) == CONN | ACC | DISC and parm_idx(g, ms[0].d['args'][0]) == 1, where(ms[0]) if ms else f.loc(), 'some of the events are not reported')
    monitor_address(ctx, f)
    for tr in TRS:
        C = sockq(tr)
        for f in [f for f in ctx.fns(C + '::GetNumberOfConnectedPeers') if f.body]:
            g = ctx.graph(f, inline=lambda x: False)
            cs = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'updateNumberOfConnectedPeers')
            ctx.ob('peer-getter', tr + ' updates its own count', bool(cs) and all(fldq(g.resolve(n.d['args'][0])) == C + '::fConnectedPeersCount' and fldq(g.resolve(n.d['args'][1])) == C + '::fMonitorSocket' for n in cs), f.loc(), 'another count or monitor is used')

            def cl2(n):
                if n.kind == 'write' and fldq(n.d['lhs']) == C + '::fConnectedPeersCount':
                    return 'W' if strip(n.d['rhs']) in {c.d['term'] for c in cs} else '!'
                if n in cs:
                    return 'U'
                if n.kind == 'ret':
                    return 'R' if fldq(g.resolve(rv(n))) == C + '::fConnectedPeersCount' else '!'
                return None
            lang(ctx, 'peer-getter', tr + ' keeps and returns it', g, cl2, 'UWR', legend='U updated, W stored, R returned')
        for f in ctx.P.fns.values():
            if f.clsq == C and f.body and f.name != 'GetNumberOfConnectedPeers':
                g = ctx.graph(f, inline=lambda x: False)
                for n in g.nodes:
                    if n.id in g.live and n.kind == 'write' and fldq(n.d['lhs']) == C + '::fConnectedPeersCount':
                        ctx.ob('count', '%s starts at zero' % tr, f.kind == 'ctor' and cval(g, n.d['rhs']) == 0, where(n), 'the count is changed')


def monitor_address(ctx, f):
    """the monitor of a socket has an endpoint of its own and is read at that endpoint"""
    from .rules_device import pieces, join
    g = ctx.graph(f, inline=lambda fn: fn.q != 'fair::mq::tools::ToString')
    ms = g.find(lambda n: n.kind == 'call' and n.d['q'] == 'zmq_socket_monitor')
    cs = g.find(lambda n: n.kind == 'call' and n.d['q'] == 'zmq_connect')

    def text(t):
        t = strip(t)
        if t[0] == 'call' and short(t[1]) in ('c_str', 'data') and t[2] is not None:
            t = t[2]
        return join(pieces(g, t))
    for n in ms:
        ps = text(n.d['args'][1])
        own = [p for p in ps if not isinstance(p, str)]
        # a piece that is more than the name handed in: the socket, a counter, a random number ...
        name = lambda p: 'string' in (f.params[parm_idx(g, p)]['t'] if parm_idx(g, p) is not None else '') or strip(p)[0] in ('s', 'c')
        ctx.ob('events', 'each monitored socket has its own monitor endpoint', any(not name(p) for p in own), where(n), 'made of %s only: sockets of the same name share it' % [p if isinstance(p, str) else show(p) for p in ps])
        ctx.ob('events', 'the monitor is read at that endpoint', bool(cs) and all(text(c.d['args'][1]) == ps for c in cs), where(n), 'connected to another endpoint')
