"""C36: what the bundled devices do with the messages that pass through them"""
from .core import *
from .lib import *
from .rules_channel import is_call as is_one_of, result_of

UNITS = ['analyzer/inst_devices.cpp']
M = 'fair::mq::'
DEV = M + 'Device::'
SEND, RECV = M + 'Channel::Send', M + 'Channel::Receive'
KEEP = ('GetChannel', 'GetChannels', 'NewStatePending', 'OnData', 'GetNumSubChannels', 'NewPoller', 'NewMessage')


def graph(ctx, f):
    return ctx.graph(f, inline=lambda fn: short(fn.q) not in KEEP and (fn.clsq.startswith('fair::mq::Device') or fn.clsq == f.clsq
                     or fn.file.endswith(f.file.split('/')[-1])))


def deref(g, t):
    """the value behind references, smart pointers, moves and casts"""
    t = strip(g.resolve(t))
    for _ in range(8):
        if t[0] in ('deref', 'addr', 'cast') and isinstance(t[-1], tuple):
            t = t[-1]
        elif t[0] == 'call' and short(t[1]) in ('move', 'forward', 'get', 'operator*', 'operator->', 'operator unsigned int', 'ref', 'cref', 'as_const'):
            t = t[3][0] if t[3] else t[2]
        elif t[0] == 'ctor' and len(t[2]) == 1 and ('unique_ptr' in t[1] or t[1].startswith(M + 'Parts')):
            t = t[2][0]
        else:
            break
        t = strip(g.resolve(t))
    return t


def is_fld(g, t, q):
    t = deref(g, t)
    return t[0] == 'fld' and t[2] == q


def chan_of(g, o):
    """(name, index) of a channel of the device: GetChannel(name, index), or the element of the sub-channels, directly or through a list made of them"""
    if o[0] != 'call':
        return None
    if o[1] == DEV + 'GetChannel':
        return o[3]
    if short(o[1]) in ('at', 'operator[]') and o[3]:
        v = deref(g, o[2])
        if v[0] == 'call' and short(v[1]) in ('at', 'operator[]') and v[3] and deref(g, v[2])[:2] == ('call', DEV + 'GetChannels'):
            return (v[3][0], o[3][0])
        name = getattr(g, '_lists', {}).get(canon(g, o[2]))
        if name is not None:
            return (name, o[3][0])
    return None


def transfer(g, n, which):
    """(channel name term, index term, payload term) of a transfer on a channel of this device"""
    if n.kind != 'call' or n.d['q'] != which:
        return None
    o = deref(g, n.d['obj'])
    a = chan_of(g, o)
    if a is None:
        return ('?', '?', '?')
    return (deref(g, a[0]), deref(g, a[1]) if len(a) > 1 else ('c', 0), deref(g, n.d['args'][0]))


def live(g, pred):
    return [n for n in g.nodes if n.id in g.live and pred(n)]


def calls(g, *qs):
    return live(g, lambda n: n.kind == 'call' and n.d['q'] in qs)


def failed(g, F, n, lab, cs):
    """True/False when the edge says that the transfer failed / succeeded"""
    if n.kind != 'branch' or lab not in (True, False):
        return None
    k, pol = F.key(n.d['cond'])
    if k[:2] == ('op', '<') and constval(g.resolve(k[3])) == 0 and result_of(g, k[2], cs):
        return lab == pol
    if k[:2] == ('op', '<') and constval(g.resolve(k[2])) == -1 and result_of(g, k[3], cs):
        return lab != pol
    return None


def pending_edge(g, F, n, lab, qs):
    if n.kind != 'branch' or lab not in (True, False):
        return None
    k, pol = F.key(n.d['cond'])
    if qs and result_of(g, k, qs):
        return 'p' if lab == pol else 'q'
    return None


def parts(n):
    """the transfer is one of a multi-part message"""
    return M + 'Parts' in n.d['pt'][0]


def no_timeout(g, n):
    return all(cval(g, a) == -1 for a in n.d['args'][1:])


def in_mode(ctx, rule, cls, g, ns, what):
    for n in ns:
        want = parts(n)
        ctx.ob(rule, '%s %s' % (what, 'multi-part' if want else 'single'), edge_before(g, n, lambda k, v: k[0] == 'fld' and k[2] == cls + '::fMultipart' and v is want),
               where(n), 'transfers %s messages although not in that mode' % ('multi-part' if want else 'single'))
    ctx.ob(rule, what + ' both modes', {parts(n) for n in ns} == {True, False}, g.root.loc(), 'one of the two modes transfers nothing')


@prop('C36', UNITS)
def c36(ctx):
    proxy(ctx)
    merger(ctx)
    splitter(ctx)
    multiplier(ctx)
    sink(ctx)
    sampler(ctx)


def one(ctx, q):
    fs = [f for f in ctx.fns(q) if f.body]
    ctx.ob('anchor', q, len(fs) == 1, fs[0].loc() if fs else '-', 'not found')
    return fs[0] if fs else None


def forwarding(ctx, g, cls, index):
    """classification of the transfers of a device that passes on what it receives"""
    F = Facts(g)
    rs, ss = calls(g, RECV), calls(g, SEND)
    qs = calls(g, DEV + 'NewStatePending')
    fin, fout = cls + '::fInChannelName', cls + '::fOutChannelName'
    let = {}
    for n in rs:
        ch, idx, pl = transfer(g, n, RECV)
        let[n.id] = 'R' if ch != '?' and is_fld(g, ch, fin) and index(idx) else '!'
    for n in ss:
        ch, idx, pl = transfer(g, n, SEND)
        ok = ch != '?' and is_fld(g, ch, fout) and constval(idx) == 0 and no_timeout(g, n)
        # what is sent is what was received
        ok = ok and any(transfer(g, r, RECV)[2] == pl for r in rs if parts(r) == parts(n))
        let[n.id] = 'S' if ok else '!'

    def edge(n, m, lab):
        p = pending_edge(g, F, n, lab, qs)
        if p:
            return p
        r = failed(g, F, n, lab, rs)
        if r is not None:
            return 'x' if r else 'o'
        s = failed(g, F, n, lab, ss)
        if s is not None:
            return 'f' if s else 'g'
        return None
    return rs, ss, let, edge


def proxy(ctx):
    cls = M + 'Proxy'
    init(ctx, cls, {'fMultipart': 'multipart', 'fInChannelName': 'in-channel', 'fOutChannelName': 'out-channel'})
    f = one(ctx, cls + '::Run')
    if not f:
        return
    g = graph(ctx, f)
    rs, ss, let, edge = forwarding(ctx, g, cls, lambda i: constval(i) == 0)
    in_mode(ctx, 'proxy', cls, g, rs + ss, 'Proxy')
    lang(ctx, 'proxy', 'what is received is sent, until a state change is pending', g, lambda n: let.get(n.id), '(q+R(x|oS(g|f)))*(q*p+|q+R(x|oSf))', edge=edge, once='',
         legend='q/p no state change / state change pending, R receive on the input, o/x received or failed, S send of the same on the output, g/f sent or failed')
    fresh(ctx, 'proxy', g, rs)


def fresh(ctx, rule, g, rs):
    """parts are received into an object that does not hold earlier ones"""
    for r in rs:
        if not parts(r):
            continue
        t = deref(g, r.d['args'][0])
        ls = sorted([(len(b), h.id, b) for h, b in natural_loops(g) if r.id in b])
        clear = lambda n: n.kind == 'call' and n.d['q'] in (M + 'Parts::Clear', M + 'Parts::clear') and ls and n.id in ls[0][2]
        ok = t[0] == 'ctor' and (not ls or t[-1] in ls[0][2]) or t[0] == 'var' and g.vinfo.get(t[1], {}).get('kind') == 'tmp' \
            and any(n.kind == 'ctor' and n.d.get('target') == t and (not ls or n.id in ls[0][2]) for n in g.nodes) or any(clear(n) for n in live(g, lambda n: True))
        ctx.ob(rule, 'received parts are collected in an empty object', ok, where(r), 'receives parts into an object that may still hold parts of an earlier message')


def field_loop(g, F, b, var):
    """bound of a counting loop 'for var = 0; var < bound; ++var' controlled by branch b, else None"""
    k, pol = F.key(b.d['cond'])
    lhs, rhs = None, None
    if k[:2] in (('op', '<'), ('op', '==')):
        lhs, rhs = k[2], k[3]
        if k[1] == '==' and not (lhs[0] == 'var'):
            lhs, rhs = rhs, lhs
    if lhs is None or strip(lhs)[0] != 'var' or var is not None and strip(lhs)[1] != var:
        return None
    v = strip(lhs)[1]
    ds = [strip(d) for d in g.defs.get(v, [])]
    if not any(constval(d) == 0 for d in ds) or not all(constval(d) == 0 or d[:2] == ('op', '+') and constval(d[3]) == 1 and strip(d[2]) == strip(lhs) for d in ds):
        return None
    return v, canon(g, rhs), (pol if k[1] == '<' else not pol)


def loop_table(g, F):
    """branch id -> (variable, canonical bound, label that stays)"""
    out = {}
    for h, body, ex in loops_of(g):
        for n in ex:
            r = field_loop(g, F, n, None)
            if r:
                out[n.id] = r
    return out


def loops_of(g, n=None):
    """(header, body, branches that may leave) of the loops (around n), innermost first"""
    out = []
    for h, b in sorted(((h, b) for h, b in natural_loops(g)), key=lambda x: (len(x[1]), x[0].id)):
        if n is None or n.id in b:
            out.append((h, b, [x for x in g.nodes if x.id in b and x.kind == 'branch' and any(m.id not in b for m, l in x.succ if l != 'exc')]))
    return out


def merger(ctx):
    cls = M + 'Merger'
    init(ctx, cls, {'fMultipart': 'multipart', 'fInChannelName': 'in-channel', 'fOutChannelName': 'out-channel'})
    f = one(ctx, cls + '::Run')
    if not f:
        return
    g = graph(ctx, f)
    F = Facts(g)
    fin = cls + '::fInChannelName'
    nps = calls(g, DEV + 'NewPoller')
    vecs = set()
    for n in nps:
        a = [deref(g, x) for x in n.d['args']]
        ok = len(a) == 1 and is_fld(g, a[0], fin)
        if not ok and len(a) == 1:
            v = strip(n.d['args'][0])
            vecs.add(canon(g, v))
            adds = live(g, lambda m: m.kind == 'call' and short(m.d['q']) in ('push_back', 'emplace_back') and strip(m.d['obj']) == v)
            each(ctx, 'merger', 'all sub-channels of the input are polled', g, adds,
                 lambda s: s[0] == 'call' and short(s[1]) in ('at', 'operator[]') and s[3] and is_fld(g, s[3][0], fin), f.loc(), 'adding a sub-channel to the poller')
            ok = bool(adds)
            g._lists = {canon(g, v): ('fld', ('this', cls), fin)}
        ctx.ob('merger', 'the input is polled', ok, where(n), 'the poller is not made of the input channel')
    ctx.ob('merger', 'one poller', len(nps) == 1, f.loc(), 'no poller, or several')
    loops = {}

    def whole(b):
        if b[0] == 'call' and b[1] == DEV + 'GetNumSubChannels':
            return is_fld(g, b[3][0], fin)
        if b[0] == 'call' and short(b[1]) == 'size':
            return b[2] in vecs or b[2][0] == 'call' and short(b[2][1]) in ('at', 'operator[]') and is_fld(g, b[2][3][0], fin)
        return False
    for b, (v, bound, stay) in loop_table(g, F).items():
        if whole(bound):
            loops[b] = (v, stay)
    ivars = {v for v, _ in loops.values()}
    rs, ss, let, tedge = forwarding(ctx, g, cls, lambda i: i[0] == 'var' and i[1] in ivars)
    in_mode(ctx, 'merger', cls, g, rs + ss, 'Merger')
    polls = calls(g, M + 'Poller::Poll')
    checks = calls(g, M + 'Poller::CheckInput')
    for n in polls:
        let[n.id] = 'P'
    for n in checks:
        i = deref(g, n.d['args'][-1])
        if not (i[0] == 'var' and i[1] in ivars) or len(n.d['args']) == 2 and not is_fld(g, n.d['args'][0], fin):
            let[n.id] = '!'
    # the sub-channel that is read is the one that was checked
    for r in rs:
        i = transfer(g, r, RECV)[1]
        ls = sorted([(len(b), h.id, b) for h, b in natural_loops(g) if r.id in b])
        inner = [n for n in checks if ls and n.id in ls[0][2]]
        ctx.ob('merger', 'the sub-channel that has data is read', bool(inner) and all(deref(g, n.d['args'][-1]) == i for n in inner), where(r), 'reads another sub-channel than the one that was checked')

    def edge(n, m, lab):
        x = tedge(n, m, lab)
        if x:
            return x
        if n.id in loops and lab in (True, False):
            return None if lab == loops[n.id][1] else 'e'
        return call_edge(g, F, n, lab, checks, 'c', 'd')
    I = '(q|d|cRoSg|cRx|cRoSf)*'
    lang(ctx, 'merger', 'what is received on any sub-channel is sent, all of them in turn, until a state change is pending', g, lambda n: let.get(n.id),
         '(q+P%s(e|cRx|cRoSf|p))*(q*p+|q+P%s(cRx|cRoSf))' % (I, I), edge=edge,
         legend='q/p no state change / state change pending, P poll, c/d sub-channel has data / none, R receive on it, o/x received or failed, S send of the same on the output, g/f sent or failed, e all sub-channels looked at')
    fresh(ctx, 'merger', g, rs)


def call_edge(g, F, n, lab, cs, yes, no):
    if n.kind != 'branch' or lab not in (True, False):
        return None
    k, pol = F.key(n.d['cond'])
    if cs and result_of(g, k, cs):
        return yes if lab == pol else no
    return None


def strings(g, t):
    return {x[1] for s in g.sources(g.resolve(t)) for x in sub(s) if x[0] == 's'}


def init(ctx, cls, table, extra=None):
    """the parameters of the device come from the like-named properties, on every initialisation"""
    f = one(ctx, cls + '::InitTask')
    if not f:
        return None
    g = graph(ctx, f)
    for fl, key in table.items():
        def c(n, fl=fl, key=key):
            if n.kind == 'write' and strip(n.d['lhs'])[0] == 'fld' and strip(n.d['lhs'])[2] == cls + '::' + fl:
                return 'w' if strings(g, n.d['rhs']) == {key} else '!'
            return None
        lang(ctx, 'init', '%s %s from %s' % (cls.split('::')[-1], fl, key), g, c, 'w+', legend='w the parameter is set from the property')
    return g


def handlers(ctx, cls, g):
    """the functions that handle multi-part and single messages, registered by the task initialisation"""
    out = {}
    F = Facts(g)
    fin = cls + '::fInChannelName'
    let = {}
    for n in calls(g, DEV + 'OnData'):
        p = M + 'Parts' in n.d['pt'][1]
        h = None
        for s in list(g.sources(n.d['args'][1])):
            if s[0] == 'fn':
                h = ctx.P.fns.get(s[1])
            elif s[0] == 'lam':
                for m in g.nodes:
                    if m.kind == 'lamdef' and m.d['lam'] == s:
                        h = ctx.P.fns.get(m.d['fn'])
        if h is None:
            h = next((x for x in ctx.fns(cls + '::' + n.d['args'][1][-1].split('::')[-1]) if x.body), None) if isinstance(n.d['args'][1][-1], str) else None
        let[n.id] = ('P' if p else 'Q') if is_fld(g, n.d['args'][0], fin) else '!'
        ctx.ob('handler', '%s %s messages are handled' % (cls.split('::')[-1], 'multi-part' if p else 'single'), h is not None and h.body is not None, where(n), 'the handler is not known')
        if h is not None and h.body:
            out[p] = h

    def c(n):
        if n.kind == 'write' and strip(n.d['lhs'])[0] == 'fld' and strip(n.d['lhs'])[2] == fin:
            return 'I'
        return let.get(n.id)

    def edge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            k, pol = F.key(n.d['cond'])
            if k[0] == 'fld' and k[2] == cls + '::fMultipart':
                return 'm' if lab == pol else 's'
        return None
    lang(ctx, 'handler', '%s: the handler of the mode is registered for the input' % cls.split('::')[-1], g, c, 'I+(mP|sQ)', edge=edge, once='ms',
         legend='I name of the input read, m/s multi-part mode or not, P/Q handler for multi-part / single messages registered')
    return out


def num_of(g, cls, t, out_name):
    """the term is the number of sub-channels of the output"""
    t = strip(g.resolve(t))
    if t[0] == 'fld' and t[2] == cls + '::fNumOutputs':
        return True
    return t[0] == 'call' and t[1] == DEV + 'GetNumSubChannels' and is_fld(g, t[3][0], out_name)


def payload(g, t):
    t = deref(g, t)
    return parm_idx(g, t) == 0


def returns(g, n):
    """letter of a return of the handler: it asks for more"""
    if n.kind == 'ret' and n.fn is g.root:
        return 't' if cval(g, n.d['term']) == 1 else '!'
    return None


def splitter(ctx):
    cls = M + 'Splitter'
    gi = init(ctx, cls, {'fMultipart': 'multipart', 'fInChannelName': 'in-channel', 'fOutChannelName': 'out-channel'})
    if not gi:
        return
    fo, dr, nm = cls + '::fOutChannelName', cls + '::fDirection', cls + '::fNumOutputs'

    def ci(n):
        if n.kind != 'write' or strip(n.d['lhs'])[0] != 'fld':
            return None
        q = strip(n.d['lhs'])[2]
        if q == fo:
            return 'O'
        if q == dr:
            return 'D' if cval(gi, n.d['rhs']) == 0 else '!'
        if q == nm:
            r = deref(gi, n.d['rhs'])
            return 'N' if r[0] == 'call' and r[1] == DEV + 'GetNumSubChannels' and name_read(gi, r[3][0], fo, 'out-channel') else '!'
        return None

    lang(ctx, 'splitter', 'starts with the first of the current outputs', gi, ci, "D*O(D|O)*N(D|N)*",
         legend='O name of the output read, N its number of sub-channels taken, D the turn set to the first')
    lang(ctx, 'splitter', 'the turn is set to the first output', gi, lambda n: 'D' if ci(n) == 'D' else None, 'D+', legend='D the turn set to the first')
    hs = handlers(ctx, cls, gi)
    for p, f in sorted(hs.items()):
        g = graph(ctx, f)
        F = Facts(g)
        let = {}
        for n in calls(g, SEND):
            ch, idx, pl = transfer(g, n, SEND)
            let[n.id] = 'S' if ch != '?' and is_fld(g, ch, fo) and is_fld(g, idx, dr) and payload(g, n.d['args'][0]) and no_timeout(g, n) else '!'

        # the next turn may be worked out in a local variable first
        agg = set()
        for n in live(g, lambda n: n.kind == 'write' and strip(n.d['lhs'])[0] == 'fld' and strip(n.d['lhs'])[2] == dr):
            v = strip(n.d['rhs'])
            if v[0] == 'var' and len(g.defs.get(v[1], [])) > 1:
                agg.add(v[1])

        def is_turn(t):
            t = strip(t)
            return t[0] == 'var' and t[1] in agg or is_fld(g, t, dr)

        def c(n):
            if n.id in let:
                return let[n.id]
            l, r0 = None, n.d.get('rhs')
            if n.kind == 'write':
                l = strip(n.d['lhs'])
            elif n.kind == 'decl' and n.d.get('var') is not None and r0 is not None:
                l = strip(n.d['var'])
            if l is not None and (l[0] == 'fld' and l[2] == dr or l[0] == 'var' and l[1] in agg):
                if strip(r0)[0] == 'var' and strip(r0)[1] in agg:
                    return 'k'
                r = strip(g.resolve(r0))
                if cval(g, r) == 0:
                    return 'w'
                if next_of(r):
                    return 'i'
                if r[:2] == ('op', '%') and next_of(strip(r[2])) and num_of(g, cls, r[3], fo):
                    return 'm'
                if r[:2] == ('op', '%') and is_turn(r[2]) and num_of(g, cls, r[3], fo):
                    return 'M'
                return '!'
            return returns(g, n)

        def next_of(r):
            r = strip(g.resolve(r))
            return r[:2] == ('op', '+') and (is_turn(r[2]) and constval(r[3]) == 1 or is_turn(r[3]) and constval(r[2]) == 1)

        def edge(n, m, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            k, pol = F.key(n.d['cond'])
            if stale(n):
                return None
            if k[:2] == ('op', '<') and num_of(g, cls, k[3], fo):
                if is_turn(k[2]):
                    return 'L' if lab == pol else 'G'
                if next_of(k[2]):
                    return 'l' if lab == pol else 'h'
            if k[:2] == ('op', '=='):
                for a, b in ((k[2], k[3]), (k[3], k[2])):
                    if num_of(g, cls, b, fo):
                        if is_turn(a):
                            return 'G' if lab == pol else 'L'
                        if next_of(a):
                            return 'h' if lab == pol else 'l'
            return None
        steps = live(g, lambda n: c(n) == 'i')

        def stale(n):
            """the condition looks at a copy of the turn made before it was advanced"""
            for s in sub(n.d['cond']):
                if s[0] == 'var' and any(is_fld(g, d, dr) for d in g.defs.get(s[1], [])):
                    ds = live(g, lambda m: m.kind in ('decl', 'write') and (m.d.get('var') == s or m.d.get('lhs') == s))
                    if not ds or not any(after(g, i, m) for i in steps for m in ds):
                        return True
            return False
        U = '(iGw|iL|iM|m|li|hw)' + ('k' if agg else '')
        lang(ctx, 'splitter', 'every message goes to one output, in turn (%s)' % ('multi-part' if p else 'single'), g, c, '(S%s|%sS)t' % (U, U), edge=edge,
             legend='S send of the message to the output whose turn it is, i next output, G/L past the last or not, w back to the first, k kept, t asks for more')


def after(g, a, b):
    seen, todo = set(), [a]
    while todo:
        for m, l in todo.pop().succ:
            if m is b:
                return True
            if m.id not in seen:
                seen.add(m.id)
                todo.append(m)
    return False


def name_read(g, t, fld, key):
    return is_fld(g, t, fld) or strings(g, t) == {key}


def multiplier(ctx):
    cls = M + 'Multiplier'
    gi = init(ctx, cls, {'fMultipart': 'multipart', 'fInChannelName': 'in-channel', 'fOutChannelNames': 'out-channel'})
    if not gi:
        return
    hs = handlers(ctx, cls, gi)
    fo = cls + '::fOutChannelNames'
    for p, f in sorted(hs.items()):
        copies(ctx, cls, fo, p, f)


def copies(ctx, cls, fo, p, f):
    g = graph(ctx, f)
    F = Facts(g)

    def names_size(t):
        return t[0] == 'call' and short(t[1]) == 'size' and t[2][0] == 'fld' and t[2][2] == fo

    def last_of(t, whole):
        return t[:2] == ('op', '-') and constval(t[3]) == 1 and whole(t[2])

    def chan(t):
        """which output: ('at', variable) / ('back',)"""
        t = canon(g, t)
        if t[0] == 'call' and t[2] and t[2][0] == 'fld' and t[2][2] == fo:
            if short(t[1]) == 'back':
                return ('back',)
            if short(t[1]) in ('at', 'operator[]') and t[3]:
                i = t[3][0]
                if i[0] == 'var':
                    return ('at', i[1])
                if last_of(i, names_size):
                    return ('back',)
        return None

    def subs(t):
        return chan(t[3][0]) if t[0] == 'call' and t[1] == DEV + 'GetNumSubChannels' else None
    kind = {}
    for b, (v, bound, stay) in loop_table(g, F).items():
        if last_of(bound, names_size):
            kind[b] = ('x', v, stay)
        elif subs(bound) and subs(bound)[0] == 'at':
            kind[b] = ('y', v, stay, subs(bound)[1])
        elif last_of(bound, lambda t: subs(t) == ('back',)):
            kind[b] = ('z', v, stay)
        elif bound[0] == 'call' and short(bound[1]) in ('Size', 'size') and bound[1].startswith(M + 'Parts') and parm_idx(g, bound[2]) == 0:
            kind[b] = ('w', v, stay)
    for b in [x for _, _, ex in loops_of(g) for x in ex]:
        if b.d['cond'][:2] == ('op', 'forr') and parm_idx(g, deref(g, b.d['cond'][2])) == 0:
            kind[b.id] = ('w', None, True)

    def around(n):
        return [next((kind[b.id] for b in ex if b.id in kind), None) for _, _, ex in loops_of(g, n)]

    def body(n):
        ls = loops_of(g, n)
        return ls[0][1] if ls else None
    cs = {}
    let = {}
    for n in calls(g, M + 'Message::Copy'):
        obj = deref(g, n.d['obj'])
        src = n.d['args'][0]
        if p:
            t = deref(g, src)
            a = around(n)
            ok = a and a[0] and a[0][0] == 'w' and whole_part(g, t, a[0][1])
        else:
            ok = payload(g, src)
        made = obj[0] == 'call' and short(obj[1]) in ('CreateMessage', 'NewMessage', 'NewMessageFor') and body(n) and obj[4] in body(n)
        let[n.id] = 'C' if ok and made else '!'
        cs[n.id] = obj
    adds = {}
    for n in calls(g, M + 'Parts::AddPart'):
        t = deref(g, n.d['args'][0])
        b = body(n)
        ok = b and any(cs[i] == t for i in cs if i in b)
        let[n.id] = 'a' if ok else '!'
        adds[n.id] = deref(g, n.d['obj'])
    for n in calls(g, SEND):
        ch, idx, pl = transfer(g, n, SEND)
        let[n.id] = '!'
        if ch == '?' or not no_timeout(g, n):
            continue
        c = chan(ch)
        a = around(n)
        b = body(n)
        if payload(g, n.d['args'][0]):
            if c == ('back',) and not a and last_of(canon(g, idx), lambda t: subs(t) == ('back',)):
                let[n.id] = 'T'
            continue
        if not b:
            continue
        if p:
            ok = pl[0] == 'ctor' and pl[-1] in b and any(adds[i] == pl for i in adds if i in b)
        else:
            ok = any(cs[i] == pl for i in cs if i in b)
        if not ok or not a[0]:
            continue
        if len(a) == 2 and a[1] and c and c[0] == 'at' and a[0][0] == 'y' and a[1][0] == 'x' and a[1][1] == c[1] == a[0][3] and idx == ('var',) + idx[1:] and idx[1] == a[0][1]:
            let[n.id] = 'A'
        if len(a) == 1 and c == ('back',) and a[0][0] == 'z' and idx[0] == 'var' and idx[1] == a[0][1]:
            let[n.id] = 'B'

    def edge(n, m, lab):
        if n.id in kind and lab in (True, False):
            k = kind[n.id]
            return k[0] if lab == k[2] else k[0].upper()
        return None
    one_a, one_b = ('(wCa)*WA', '(wCa)*WB') if p else ('CA', 'CB')
    X, Z = '(x(y%s)*Y)*X' % one_a, '(z%s)*Z' % one_b
    lang(ctx, 'multiplier', 'a copy to every output, the message itself to the last (%s)' % ('multi-part' if p else 'single'), g, lambda n: let.get(n.id) or returns(g, n),
         '(%s%s|%s%s)Tt' % (X, Z, Z, X), edge=edge,
         legend='x every channel but the last, y every sub-channel of it, z every sub-channel of the last channel but the last, w every part, C copy of the message or part, a added, A/B sent there, T the message sent to the last sub-channel, t asks for more')


def whole_part(g, t, v):
    """the term is the part of the message the loop is at"""
    if t[0] == 'call' and t[1].startswith(M + 'Parts') and short(t[1]) in ('At', 'operator[]', 'at'):
        i = strip(t[3][0])
        return parm_idx(g, deref(g, t[2])) == 0 and v is not None and i[0] == 'var' and i[1] == v
    return v is None and any(parm_idx(g, s) == 0 for s in g.sources(t))


def limit_edge(g, F, n, lab, num, mx, yes, letters):
    """letters (limited, unlimited, below, reached) of the comparison of a counter with its limit"""
    if n.kind != 'branch' or lab not in (True, False):
        return None
    k, pol = F.key(n.d['cond'])
    if k[0] == 'fld' and k[2] == mx:
        return letters[0] if lab == pol else letters[1]
    if k[:2] == ('op', '<'):
        if constval(g.resolve(k[2])) == 0 and is_fld(g, k[3], mx):
            return letters[0] if lab == pol else letters[1]
        if is_fld(g, k[2], num) and is_fld(g, k[3], mx):
            return letters[2] if lab == pol else letters[3]
    if k[:2] == ('op', '=='):
        for a, b in ((k[2], k[3]), (k[3], k[2])):
            if is_fld(g, a, mx) and constval(g.resolve(b)) == 0:
                return letters[1] if lab == pol else letters[0]
            if yes and is_fld(g, a, num) and is_fld(g, b, mx):
                return letters[3] if lab == pol else letters[2]
    return None


def counts(g, n, q):
    """the node adds one to the counter q: 'i'; changes it otherwise: '!'"""
    if n.kind != 'write' or strip(n.d['lhs'])[0] != 'fld' or strip(n.d['lhs'])[2] != q:
        return None
    r = strip(g.resolve(n.d['rhs']))
    return 'i' if r[:2] == ('op', '+') and is_fld(g, r[2], q) and constval(r[3]) == 1 else '!'


def main_loop(g, ns):
    """nodes of the outermost loop around the transfers"""
    out = set()
    for n in ns:
        ls = loops_of(g, n)
        if ls:
            out |= ls[-1][1]
    return out


C, CE = '(0|1l)', '1r'


def sink(ctx):
    cls = M + 'Sink'
    if not init(ctx, cls, {'fMultipart': 'multipart', 'fMaxIterations': 'max-iterations', 'fMaxFileSize': 'max-file-size', 'fInChannelName': 'in-channel', 'fOutFilename': 'out-filename'}):
        return
    f = one(ctx, cls + '::Run')
    if not f:
        return
    g = graph(ctx, f)
    F = Facts(g)
    rs = calls(g, RECV)
    qs = calls(g, DEV + 'NewStatePending')
    fin, out, name, by = cls + '::fInChannelName', cls + '::fOutputFile', cls + '::fOutFilename', cls + '::fBytesWritten'
    in_mode(ctx, 'sink', cls, g, rs, 'Sink')
    fresh(ctx, 'sink', g, rs)
    loop = main_loop(g, rs)
    let, loops = {}, {}
    for n in rs:
        ch, idx, pl = transfer(g, n, RECV)
        let[n.id] = ('R' if parts(n) else 'r') if ch != '?' and is_fld(g, ch, fin) and constval(idx) == 0 else '!'
    held = {parts(n): transfer(g, n, RECV)[2] for n in rs}
    for h, body, ex in loops_of(g):
        for b in ex:
            if b.d['cond'][:2] == ('op', 'forr') and deref(g, b.d['cond'][2]) == held.get(True):
                loops[b.id] = (None, True)
            else:
                r = field_loop(g, F, b, None)
                if r and r[1][0] == 'call' and short(r[1][1]) in ('Size', 'size') and r[1][1].startswith(M + 'Parts'):
                    loops[b.id] = (r[0], r[2])
    fileops = live(g, lambda n: n.kind == 'call' and n.d.get('obj') is not None and is_fld(g, n.d['obj'], out))
    opened = [n for n in fileops if short(n.d['q']) == 'is_open']

    def unit(t):
        """the message a pointer or size is taken from, if that is the received one or the part of it the loop is at"""
        t = deref(g, t)
        if t[0] != 'call' or short(t[1]) not in ('GetData', 'GetSize'):
            return None
        m = deref(g, t[2])
        return short(t[1]), canon(g, m), m

    def right(m, n):
        if m == held.get(False):
            return 'W'
        ls = loops_of(g, n)
        if ls and any(b.id in loops for b in ls[0][2]):
            v = next(loops[b.id][0] for b in ls[0][2] if b.id in loops)
            if v is None and any(deref(g, s) == held.get(True) for x in (m, t_of(g, m)) for s in list(sub(x)) + list(g.sources(x))):
                return 'W'
            if v is not None and m[0] == 'call' and deref(g, m[2]) == held.get(True) and strip(m[3][0])[:2] == ('var', v):
                return 'W'
        return '!'
    ws = [n for n in fileops if short(n.d['q']) in ('write', 'put', 'operator<<', 'sputn', 'seekp')]
    wrote = {}
    for n in ws:
        a = n.d['args']
        d, s = (unit(a[0]), unit(a[1])) if short(n.d['q']) == 'write' and len(a) == 2 else (None, None)
        ok = d and s and d[0] == 'GetData' and s[0] == 'GetSize' and d[1] == s[1]
        let[n.id] = right(d[2], n) if ok else '!'
        wrote[n.id] = d and d[1]
    for n in fileops:
        if short(n.d['q']) == 'open':
            let[n.id] = 'O' if is_fld(g, n.d['args'][0], name) and n.id not in loop else '!'

    def c(n):
        if n.id in let:
            return let[n.id]
        if n.kind == 'write' and strip(n.d['lhs'])[0] == 'fld' and strip(n.d['lhs'])[2] == by:
            r = strip(g.resolve(n.d['rhs']))
            if r[:2] != ('op', '+'):
                return '!'
            for a, b in ((r[2], r[3]), (r[3], r[2])):
                u = unit(b)
                if is_fld(g, a, by) and u and u[0] == 'GetSize' and u[1] in wrote.values():
                    return 'u'
            return '!'
        return counts(g, n, cls + '::fNumIterations') if n.id in loop else None
    empties = live(g, lambda n: n.kind == 'call' and short(n.d['q']) == 'empty' and n.d.get('obj') is not None and is_fld(g, n.d['obj'], name))
    leads = {n.id for n in g.nodes if n.kind == 'branch' and any(after(g, n, r) for r in rs)}

    def edge(n, m, lab):
        p = pending_edge(g, F, n, lab, qs)
        if p:
            return p
        r = failed(g, F, n, lab, rs)
        if r is not None:
            return 'x' if r else 'o'
        if n.kind != 'branch' or lab not in (True, False):
            return None
        if n.id in loops:
            return 'v' if lab == loops[n.id][1] else 'V'
        if n.id not in loop:
            return call_edge(g, F, n, lab, empties, 'E', 'Y') if n.id in leads else None
        return call_edge(g, F, n, lab, opened, 'F', 'N') or limit_edge(g, F, n, lab, by, cls + '::fMaxFileSize', False, '32nb') \
            or limit_edge(g, F, n, lab, cls + '::fNumIterations', cls + '::fMaxIterations', True, '10lr')
    T, TE = '(2|3n)', '3b'
    got = '(Ro(N|F(v(Wu|uW))*V|(v(N|F(Wu|uW)))*V)|ro(N|F(Wu|uW)))'
    go = '(i%s%s|%si%s|i%s%s)' % (T, C, T, C, C, T)
    end = '(i%s|%si?|i%s%s|%si%s|i%s|i%s%s)' % (TE, TE, T, CE, T, CE, CE, C, TE)
    lang(ctx, 'sink', 'every message received is written completely and counted, until a limit is reached', g, c,
         '(E|YO)(q+([Rr]x|%s%s))*(q*p+|q+([Rr]x|%s%s))' % (got, go, got, end), edge=edge,
         legend='E/Y no output file / output file named, O opened, q/p no state change / state change pending, R/r receive parts / a message, x/o failed or received, F/N file open or not, v/V next part / no more, W bytes of the message or part written, '
         'u its size added, i counted, 2/3n/3b no size limit / below / reached, 0/1l/1r no iteration limit / below / reached')


def t_of(g, t):
    return g.resolve(t)


def sampler(ctx):
    cls = M + 'BenchmarkSampler'
    if not init(ctx, cls, {'fMultipart': 'multipart', 'fMemSet': 'memset', 'fNumParts': 'num-parts', 'fMsgSize': 'msg-size', 'fMsgAlignment': 'msg-alignment', 'fMsgRate': 'msg-rate',
                           'fMaxIterations': 'max-iterations', 'fOutChannelName': 'out-channel'}):
        return
    f = one(ctx, cls + '::Run')
    if not f:
        return
    g = graph(ctx, f)
    F = Facts(g)
    ss = calls(g, SEND)
    qs = calls(g, DEV + 'NewStatePending')
    fout = cls + '::fOutChannelName'
    in_mode(ctx, 'sampler', cls, g, ss, 'BenchmarkSampler')
    loop = main_loop(g, ss)
    table = {b: (v, stay) for b, (v, bound, stay) in loop_table(g, F).items() if is_fld(g, bound, cls + '::fNumParts')}
    made, let = {}, {}
    for n in calls(g, M + 'Channel::NewMessage'):
        o = deref(g, n.d['obj'])
        a = n.d['args']
        ok = o[0] == 'call' and o[1] == DEV + 'GetChannel' and is_fld(g, o[3][0], fout) and len(a) == 2 and is_fld(g, a[0], cls + '::fMsgSize') \
            and any(s[0] == 'fld' and s[2] == cls + '::fMsgAlignment' for s in g.sources(g.resolve(a[1])))
        let[n.id] = 'M' if ok and n.id in loop else '!'
        made[n.id] = n
    for n in calls(g, M + 'Parts::AddPart'):
        t = deref(g, n.d['args'][0])
        let[n.id] = 'a' if t[0] == 'call' and t[4] in made else '!'
    adds = {n.id: deref(g, n.d['obj']) for n in calls(g, M + 'Parts::AddPart')}
    for n in ss:
        ch, idx, pl = transfer(g, n, SEND)
        ok = ch != '?' and is_fld(g, ch, fout) and constval(idx) == 0 and no_timeout(g, n)
        if parts(n):
            ok = ok and pl[0] == 'ctor' and pl[-1] in loop and all(o == pl for o in adds.values())
        else:
            ok = ok and pl[0] == 'call' and pl[4] in made
        let[n.id] = ('S' if parts(n) else 's') if ok else '!'
    for n in calls(g, M + 'tools::RateLimiter::maybe_sleep'):
        let[n.id] = 'h'

    def edge(n, m, lab):
        p = pending_edge(g, F, n, lab, qs)
        if p:
            return p
        r = failed(g, F, n, lab, ss)
        if r is not None:
            return 'f' if r else 'g'
        if n.kind != 'branch' or lab not in (True, False) or n.id not in loop:
            return None
        if n.id in table:
            return 'v' if lab == table[n.id][1] else 'V'
        k, pol = F.key(n.d['cond'])
        if k[:2] == ('op', '<') and constval(g.resolve(k[2])) == 0 and is_fld(g, k[3], cls + '::fMsgRate'):
            return 'k' if lab == pol else 'K'
        return limit_edge(g, F, n, lab, cls + '::fNumIterations', cls + '::fMaxIterations', True, '10lr')
    one_ = '((v(Ma))*VS|Ms)'
    lang(ctx, 'sampler', 'sends messages of the configured form, counted, at the configured rate, until the limit is reached', g,
         lambda n: let.get(n.id) or (counts(g, n, cls + '::fNumIterations') if n.id in loop else None),
         '(q+%s(f|gi%s)(kh|K))*(q*p+|q+%s(f|gi%s))' % (one_, C, one_, CE), edge=edge,
         legend='q/p no state change / state change pending, v/V next part / no more, M message of the configured size and alignment made, a added, S/s parts / message sent, f/g failed or sent, i counted, 0/1l/1r no limit / below / reached, k/K rate limited or not, h waits')
