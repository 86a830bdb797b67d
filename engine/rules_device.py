"""C13: the device carries out each state completely (Device.cxx); C30: exceptions never end the process"""
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .rules_channel import lam_fn, call_result_edge, forwarded, result_of, is_call
from .rules_region import srcs, peel, cond_field
from .rules_plugins import calls, enum_of, known, pathwise, strv, own, positive

DV = 'fair::mq::Device'
PO = 'fair::mq::ProgOptions'
SM = 'fair::mq::StateMachine'
CH = 'fair::mq::Channel'
TR = 'fair::mq::Transition'
HOOKS = ('Init', 'Bind', 'Connect', 'InitTask', 'Run', 'PreRun', 'ConditionalRun', 'PostRun', 'ResetTask', 'Reset', 'Exit')
BINDL, CONNL = DV + '::fUninitializedBindingChannels', DV + '::fUninitializedConnectingChannels'
KEYS, MSGS, PARTS = DV + '::fInputChannelKeys', DV + '::fMsgInputs', DV + '::fMultipartInputs'
UNITS = ['fairmq/Device.cxx', 'analyzer/inst_core.cpp']


def dgraph(ctx, f, *keep):
    ks = {DV + '::' + x for x in HOOKS + ('NewStatePending', 'ChangeState', 'ChangeStateOrThrow') + keep}
    return ctx.graph(f, inline=lambda fn: fn.q not in ks and fn.clsq not in (SM, PO, 'fair::mq::StateQueue', CH, 'fair::mq::Message', 'fair::mq::Parts') and not fn.q.startswith('fair::mq::tools::get') and fn.q != 'fair::mq::tools::ToString' and short(fn.q) != 'CreateTransportFactory')


def hook(n):
    return short(n.d['q']) if n.kind == 'call' and n.d['cls'] == DV and short(n.d['q']) in HOOKS else None


def request(g, n):
    """the transition requested"""
    if n.kind == 'call' and n.d['cls'] in (DV, SM) and short(n.d['q']) in ('ChangeState', 'ChangeStateOrThrow'):
        return enum_of(g, n.d['args'][0], TR) or '?'
    return None


def pending(g, F, n, lab, yes='p', no='q'):
    if n.kind != 'branch' or lab not in (True, False):
        return None
    key, pol = F.key(n.d['cond'])
    for k in [key, strip(g.resolve(key))] + (list(g.sources(key)) if key[0] == 'var' else []):
        if k[0] == 'call' and short(k[1]) == 'NewStatePending':
            return yes if lab == pol else no
    return None


@prop('C13', UNITS)
def c13(ctx):
    """the device carries out each state completely"""
    hooks(ctx)
    init(ctx)
    connecting(ctx)
    running(ctx)
    inputs(ctx)
    polling(ctx)
    several(ctx)
    reset(ctx)
    rates(ctx)
    transports(ctx)


def nested(ctx, r, inst, g, ns, conts, loc, what):
    """each of the nodes is in exactly len(conts) loops, each over all elements of its container (innermost first)"""
    if not ns:
        ctx.bad(r, inst, loc, 'not done at all: ' + what)
        return False
    ok = True
    for n in ns:
        loops = sorted([(len(b), h.id, b) for h, b in natural_loops(g) if n.id in b])
        good = len(loops) >= len(conts)
        for (_, _, b), c in zip(loops, conts):
            ex = [x for x in g.nodes if x.id in b and x.kind == 'branch' and any(m.id not in b for m, l in x.succ if l != 'exc')]
            good &= any(whole_range(g, x, c) for x in ex)
        ok &= good
    ctx.ob(r, inst, ok, where(ns[0]), 'not done for all elements: ' + what)
    return ok


def loop_branches(g, b):
    return [x for x in g.nodes if x.id in b and x.kind == 'branch' and any(m.id not in b for m, l in x.succ if l != 'exc')]


def pieces(g, t, depth=0):
    """a text put together from pieces: constants and terms"""
    t = strip(t)
    if depth > 12:
        return [t]
    if strv(t) is not None:
        return [strv(t)]
    if t[0] == 'call' and short(t[1]) == 'ToString':
        return [y for a in t[3] for y in pieces(g, a, depth + 1)]
    if t[0] == 'call' and short(t[1]) == 'operator+' and len(t[3]) == 2:
        return [y for a in t[3] for y in pieces(g, a, depth + 1)]
    if t[0] == 'op' and t[1] == '+' and len(t) == 4:
        return [y for a in t[2:4] for y in pieces(g, a, depth + 1)]
    if t[0] == 'call' and short(t[1]) in ('to_string', 'move', 'forward') and len(t[3]) == 1:
        return pieces(g, t[3][0], depth + 1)
    if t[0] == 'ctor' and t[2] and 'basic_string' in str(t[1]):
        return pieces(g, t[2][0], depth + 1)
    r = g.resolve(t)
    if strip(r) != t:
        return pieces(g, r, depth + 1)
    if t[0] == 'var':
        ss = [s for s in g.sources(t) if s != t]
        if len(ss) == 1 and (strip(ss[0])[0] in ('call', 'op', 'ctor', 's')):
            return pieces(g, ss[0], depth + 1)
    return [t]


def join(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def chans(t):
    return fldq(t) == DV + '::fChannels'


def hooks(ctx):
    r = 'hook'
    for w, h in (('InitTaskWrapper', 'InitTask'), ('ResetTaskWrapper', 'ResetTask'), ('BindWrapper', 'Bind'), ('ConnectWrapper', 'Connect'), ('ResetWrapper', 'Reset')):
        for f in ctx.fns(DV + '::' + w):
            g = dgraph(ctx, f, 'AttachChannels')
            F = Facts(g)

            def cl(n):
                if hook(n):
                    return 'H' if hook(n) == h else '?'
                q = request(g, n)
                return None if q is None else 'a' if q == 'Auto' else '?'
            lang(ctx, r, '%s: %s once, then the automatic transition unless another is requested' % (w, h), g, cl, '(p|q)* H (p|q a)', edge=lambda n, m, lab: pending(g, F, n, lab), legend='H the hook, p/q a transition is pending or not, a Auto requested, ? another hook or transition')
    for f in ctx.fns(DV + '::BindWrapper'):
        g = dgraph(ctx, f, 'AttachChannels')
        F = Facts(g)

        def cl2(n):
            if calls(n, DV + '::AttachChannels'):
                return 'A' if fldq(peel(g.resolve(n.d['args'][0]))) == BINDL else '?'
            return 'H' if hook(n) else None

        def ed(n, m, lab):
            c = empty_of(g, F, n, lab, BINDL)
            return None if c is None else 'e' if c else 'E'
        lang(ctx, r, 'binding goes on only if every binding channel is attached', g, cl2, 'A e H x|.* y', edge=ed, ends=('exit', 'exc'), endsym={'exit': 'x', 'exc': 'y'}, legend='A binding channels attached, e/E all/not all attached, H Bind(), x end, y exception')
    # one handler per state
    ctor = [f for f in ctx.fns(DV + '::Device') if f.body and len(f.params) == 2 and '*' in f.params[0]['t']]
    want = {'InitializingDevice': 'InitWrapper', 'Binding': 'BindWrapper', 'Connecting': 'ConnectWrapper', 'InitializingTask': 'InitTaskWrapper', 'Running': 'RunWrapper', 'ResettingTask': 'ResetTaskWrapper', 'ResettingDevice': 'ResetWrapper'}
    for f in ctor:
        g = dgraph(ctx, f)
        for n in g.nodes:
            if not (n.id in g.live and calls(n, SM + '::HandleStates')):
                continue
            lf = lam_fn(ctx, g, n.d['args'][0])
            if not ctx.ob(r, 'the handler of the states', lf is not None and bool(lf.body), where(n), 'unknown handler'):
                continue
            h = dgraph(ctx, lf, *want.values())
            for e in enum_vals(ctx, 'fair::mq::State')['c']:
                w = want.get(e['n'])

                def cl3(m):
                    if m.kind == 'call' and m.d['q'] == 'fair::mq::StateQueue::Push' and m.d.get('obj') is not None and fldq(peel(m.d['obj'])) == DV + '::fStateQueue':
                        return 'Q' if parms_in(h, m.d['args'][0]) == {0} else '?'
                    if m.kind == 'call' and m.d['cls'] == DV and (short(m.d['q']) in want.values()):
                        return 'W' if short(m.d['q']) == w else '?'
                    return None
                lang(ctx, r, 'state %s is queued for waiters and handled by %s' % (e['n'], w or 'nothing'), h, cl3, 'Q W' if w else 'Q', init_facts=pfact(h, 0, e['v']), legend='Q pushed to the state queue, W %s, ? another one' % w)


def empty_of(g, F, n, lab, q):
    """what the branch says: True the container is empty, False it is not"""
    if n.kind != 'branch' or lab not in (True, False):
        return None
    key, pol = F.key(n.d['cond'])
    for k in (key, strip(g.resolve(key))):
        if k[0] == 'call' and short(k[1]) == 'empty' and k[2] is not None and fldq(peel(g.resolve(k[2]))) == q:
            return lab == pol
        if k[0] == 'op' and len(k) == 4:
            a, b = strip(g.resolve(k[2])), strip(g.resolve(k[3]))
            sz = lambda x: x[0] == 'call' and short(x[1]) == 'size' and x[2] is not None and fldq(peel(g.resolve(x[2]))) == q
            if k[1] == '==' and (sz(a) and constval(b) == 0 or sz(b) and constval(a) == 0):
                return lab == pol
            if k[1] == '<' and constval(a) == 0 and sz(b):
                return lab != pol
            if k[1] == '<' and sz(a) and constval(b) == 1:
                return lab == pol
    return None


def prop_of(g, t):
    """the configuration keys a value is read from"""
    return {strv(y[3][0]) for s in srcs(g, t) for y in sub(s) if y[0] == 'call' and short(y[1]) == 'GetProperty' and y[3]}


def method_edge(g, F, n, lab):
    if n.kind != 'branch' or lab not in (True, False):
        return None
    key, pol = F.key(n.d['cond'])
    k = strip(g.resolve(key)) if key[0] != 'op' else key
    ps = list(k[2:4]) if k[0] == 'op' and k[1] == '==' else list(k[3]) if k[0] == 'call' and short(k[1]) == 'operator==' else None
    if k[0] == 'call' and k[2] is not None and short(k[1]) == 'operator==':
        ps = [k[2]] + ps
    if ps and len(ps) == 2:
        for x, y in (ps, ps[::-1]):
            q, s = fldq(peel(g.resolve(x))), strv(g.resolve(y))
            if q == CH + '::fMethod' and s in ('bind', 'connect'):
                return (s, lab == pol)
            if q == CH + '::fAddress' and s == 'unspecified':
                return ('unspecified', lab == pol)
    if k[0] == 'call' and short(k[1]) == 'empty' and k[2] is not None and fldq(peel(g.resolve(k[2]))) == CH + '::fAddress':
        return ('unspecified', True) if lab == pol else ('named', True)
    if any(y[0] == 'call' and short(y[1]) == 'find_first_of' and y[2] is not None and fldq(peel(g.resolve(y[2]))) == CH + '::fAddress' and sorted(strv(y[3][0]) or '') == sorted('@+>') for y in sub(g.resolve(key))) and key[0] == 'op' and key[1] == '==':
        return ('modifier', lab != pol)
    return None


def init(ctx):
    r = 'init'
    for f in ctx.fns(DV + '::InitWrapper'):
        g = dgraph(ctx, f, 'AddTransport')
        F = Facts(g)
        live = [n for n in g.nodes if n.id in g.live]
        made = [n for n in live if n.kind == 'call' and n.d.get('obj') is not None and short(n.d['q']) in ('emplace_back', 'push_back') and based(g, n.d['obj'], DV + '::fChannels')]
        trs = [n for n in live if calls(n, CH + '::InitTransport')]
        pushed = [n for n in live if n.kind == 'call' and n.d.get('obj') is not None and short(n.d['q']) in ('emplace_back', 'push_back', 'insert') and (base_is(g, n.d['obj'], BINDL) or base_is(g, n.d['obj'], CONNL))]
        addr = [n for n in live if n.kind == 'write' and fldq(strip(n.d['lhs'])) == CH + '::fAddress']

        def cl(n):
            if calls(n, SM + '::WaitForPendingState'):
                return 'W'
            if hook(n):
                return 'I' if hook(n) == 'Init' else '?'
            if n in made:
                return 'c'
            if n in trs:
                a = [y for y in srcs(g, n.d['args'][0])]
                own = a and all(y[0] == 'call' and y[1] == DV + '::AddTransport' and same_chan(g, y[3][0], n.d['obj'], CH + '::fTransportType') for y in a)
                return 'T' if own else '?'
            if n in pushed:
                return 'B' if base_is(g, n.d['obj'], BINDL) else 'C'
            if n in addr:
                return 'k'
            return None

        def ed(n, m, lab):
            x = method_edge(g, F, n, lab)
            if x is None:
                return None
            return {('bind', True): 'b', ('bind', False): 'x', ('connect', True): 'n', ('connect', False): 'y', ('modifier', True): 'm', ('modifier', False): 'w', ('unspecified', True): 'u', ('unspecified', False): None, ('named', True): 'v'}[x]
        lang(ctx, r, 'every channel gets its transport and is queued once, for binding or connecting as configured', g, cl, 'W I c* (T (b (u k|v) B | x? n C | x y m C | x m y? C))* z|.* e', edge=ed, ends=('exit', 'exc'), endsym={'exit': 'z', 'exc': 'e'},
             legend='W completion requested, I Init(), c channel made, T its own transport set, b/n bind/connect (x/y not), m address has a modifier, u/v address not given/given, k filled in, B/C queued for binding/connecting, z/e end or exception')
        nested(ctx, r, 'all sub-channels of all channels are prepared', g, trs, [lambda t: True, chans], f.loc(), 'setting the transport')
        for n in pushed:
            ok = any(same_elem(g, n.d['args'][-1], t.d['obj']) for t in trs)
            ctx.ob(r, 'the channel queued is the one prepared', ok, where(n), 'queued: %s' % show(n.d['args'][-1]))
        for n in made:
            a = n.d['args']
            o = g.resolve(n.d['obj'])
            idx = [y for y in sub(o) if y[0] == 'call' and short(y[1]) in ('operator[]', 'at')]
            inf = lambda t: {short(y[2]) for s in srcs(g, t) for y in sub(s) if y[0] == 'fld' and short(y[2]) in ('first', 'second')} 
            key = [y for s in srcs(g, a[2]) for y in sub(s) if y[0] == 'call' and short(y[1]) == 'GetPropertiesStartingWith'] if len(a) == 3 else []
            form = [join(pieces(g, y[3][0])) for y in key]
            ok = bool(idx) and len(a) == 3 and inf(idx[0][3][0]) == {'first'} and inf(a[0]) == {'first'} and len(form) == 1 and len(form[0]) == 5 and [form[0][i] for i in (0, 2, 4)] == ['chans.', '.', '.'] and inf(form[0][1]) == {'first'} and peel(g.resolve(form[0][3])) == peel(g.resolve(a[1])) and peel(a[1])[0] == 'var'
            ctx.ob(r, 'each channel is made from its own properties', ok, where(n), 'made with (%s)' % ', '.join(show(x) for x in a))
            ls = loops_around(g, n)
            lx = [loop_branches(g, b) for _, b in ls]
            b = lx[0][0] if lx and lx[0] else None
            c = norm(strip(b.d['cond']))[0] if b is not None else ('x',)
            ok = len(ls) >= 2 and c[0] == 'op' and c[1] == '<' and peel(c[2]) == peel(a[1]) and inf(c[3]) == {'second'} and {constval(strip(d)) for d in g.defs.get(peel(a[1])[1], []) if constval(strip(d)) is not None} == {0} if len(a) == 3 and peel(a[1])[0] == 'var' else False
            ok = ok and any(whole_range(g, x, lambda t: any(y[0] == 'call' and short(y[1]) == 'GetChannelInfo' for y in sub(t))) for x in lx[1])
            ctx.ob(r, 'every configured sub-channel is made once', bool(ok), where(n), 'not for all numbers of all configured channels')
        want = {'fId': 'id', 'fRate': 'rate', 'fInitializationTimeoutInS': 'init-timeout', 'fDefaultTransportType': 'transport'}
        for fl, k in want.items():
            ws = [n for n in live if n.kind == 'write' and fldq(strip(n.d['lhs'])) == DV + '::' + fl]
            ctx.ob(r, '%s is taken from the option %s' % (fl, k), bool(ws) and all(prop_of(g, n.d['rhs']) == {k} for n in ws) and min(count_on_paths(g, lambda n: n in ws) or {0}) >= 1, f.loc(), 'not on every path, or another option')
        dt = [n for n in live if n.kind == 'write' and fldq(strip(n.d['lhs'])) == DV + '::fTransportFactory']
        ok = bool(dt) and all(any(y[0] == 'call' and y[1] == DV + '::AddTransport' and fldq(peel(g.resolve(y[3][0]))) == DV + '::fDefaultTransportType' for y in srcs(g, n.d['rhs'])) for n in dt) and min(count_on_paths(g, lambda n: n in dt) or {0}) == 1
        ws = [n for n in live if n.kind == 'write' and fldq(strip(n.d['lhs'])) == DV + '::fDefaultTransportType']
        ok &= not passes_before(g, lambda n: n in dt or n in trs, lambda n: n in ws)
        ctx.ob(r, 'the default transport is the configured one', ok, f.loc(), 'fTransportFactory is not made from the configured type')


def same_elem(g, a, b):
    a, b = peel(g.resolve(a)), peel(g.resolve(b))
    while a[0] in ('addr', 'deref') or a[0] == 'op' and a[1] in ('&', '*') and len(a) == 3:
        a = peel(g.resolve(a[-1]))
    while b[0] in ('addr', 'deref') or b[0] == 'op' and b[1] in ('&', '*') and len(b) == 3:
        b = peel(g.resolve(b[-1]))
    return a == b


def same_chan(g, t, obj, q):
    """t is field q of the channel obj"""
    return any(y[0] == 'fld' and fldq(y) == q and same_elem(g, y[1], obj) for s in srcs(g, t) for y in sub(s))


def connecting(ctx):
    r = 'connect'
    for f in ctx.fns(DV + '::ConnectWrapper'):
        g = dgraph(ctx, f, 'AttachChannels')
        F = Facts(g)

        def cl(n):
            if calls(n, DV + '::AttachChannels'):
                return 'A' if fldq(peel(g.resolve(n.d['args'][0]))) == CONNL else '?'
            if hook(n):
                return 'H'
            if n.kind == 'throw':
                return 't'
            return None

        def ed(n, m, lab):
            c = empty_of(g, F, n, lab, CONNL)
            return pending(g, F, n, lab) if c is None else 'e' if c else 'E'
        lang(ctx, r, 'connecting is retried until all are connected or a transition is requested, or fails', g, cl, 'A (E q A|q E A|q A)* (e p?|E p|p e?|p E?|q e|q E p) H (p|q a?) x | .* y', edge=ed,
             ends=('exit', 'exc'), endsym={'exit': 'x', 'exc': 'y'}, legend='A connecting channels attached, e/E all/not all connected, p/q a transition is pending or not, t given up, H Connect()')
        live = [n for n in g.nodes if n.id in g.live]
        ups = [n for n in live if n.kind == 'call' and n.d['q'] == CH + '::UpdateAddress']
        cont = lambda t: fldq(t) == CONNL
        if ctx.ob(r, 'addresses are read again before a new attempt', bool(ups) and all(prop_key(g, n) for n in ups), f.loc(), 'UpdateAddress is not called with the configured address of the channel'):
            nested(ctx, r, 'of every unconnected channel', g, ups, [cont], f.loc(), 'UpdateAddress')


def prop_key(g, n):
    """UpdateAddress of a channel with the property of that channel"""
    ks = [y for s in srcs(g, n.d['args'][0]) for y in sub(s) if y[0] == 'call' and short(y[1]) == 'GetProperty']
    if not ks:
        return False
    for y in ks:
        s = [z for k in srcs(g, y[3][0]) for z in sub(k)]
        if not ({'GetPrefix', 'GetIndex'} <= {short(z[1]) for z in s if z[0] == 'call'} and {'chans.', '.address'} <= {z[1] for z in s if z[0] == 's'} and all(same_elem(g, z[2], n.d['obj']) for z in s if z[0] == 'call' and short(z[1]) in ('GetPrefix', 'GetIndex'))):
            return False
    return True


def running(ctx):
    r = 'run'
    HS, HM, LR = 'HandleSingleChannelInput', 'HandleMultipleChannelInput', 'LogSocketRates'
    for f in ctx.fns(DV + '::RunWrapper'):
        g = dgraph(ctx, f, HS, HM, LR)
        F = Facts(g)
        req = [n for n in g.nodes if n.id in g.live and request(g, n) == 'Stop' and short(n.d['q']) == 'ChangeState']
        cond = [n for n in g.nodes if n.id in g.live and hook(n) == 'ConditionalRun']

        def cl(n):
            h = hook(n)
            if h:
                return {'PreRun': 'P', 'ConditionalRun': 'C', 'Run': 'R', 'PostRun': 'O'}.get(h, '?')
            if n.kind == 'call' and n.d['cls'] == DV and short(n.d['q']) in (HS, HM):
                return 'S' if short(n.d['q']) == HS else 'M'
            q = request(g, n)
            if q:
                return {'Stop': 'Z' if short(n.d['q']) == 'ChangeState' else 'T', 'ErrorFound': 'X'}.get(q, '?')
            if n.kind == 'call' and n.d['q'] == 'std::thread::join':
                return 'J'
            return None

        def one(n, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            if key[0] == 'op' and key[1] == '==' and len(key) == 4 and 1 in (constval(key[2]), constval(key[3])):
                o = strip(g.resolve(key[2] if constval(key[3]) == 1 else key[3]))
                if o[0] == 'call' and short(o[1]) == 'size' and o[2] is not None:
                    b = peel(g.resolve(o[2]))
                    if fldq(b) == KEYS:
                        return '1' if lab == pol else None
                    if any(fldq(y) == DV + '::fChannels' for y in sub(b)) and any(fldq(y) == KEYS for y in sub(b)):
                        return '2' if lab == pol else None
            return None

        def ed(n, m, lab):
            c = cond_field(F, n, lab, DV + '::fDataCallbacks')
            if c is not None:
                return 'd' if c else 'n'
            return pending(g, F, n, lab) or call_result_edge(g, F, n, lab, req, 'a', 'b') or call_result_edge(g, F, n, lab, cond, 'y', 'w') or one(n, lab)
        body = '(d (1 2 S|2 1 S|1? 2? M) | n (q C y)* (p|q C w) R)'
        lang(ctx, r, 'hooks and data handlers run in order; Stop is requested unless a transition is pending', g, cl, 'P %s (p|q Z (a|b (p|q T))) O J?' % body, edge=ed, once='dn',
             legend='P/R/O PreRun, Run, PostRun, d/n data callbacks or not, 1 one input channel, 2 one sub-channel, S/M single/multiple input handler, C ConditionalRun (y/w its result), p/q a transition is pending or not, Z Stop requested (a/b accepted, refused), T Stop or failure, X ErrorFound requested, J rate logger ended')
        lang(ctx, r, 'an exception while running leads to the error state, before the rate logger is awaited', g, cl, 'J? | P [dnSMCR12pqywZTabO]* X J?', edge=ed, ends=('exc',), legend='as above')


def received(ctx, g, n, cls):
    """the term is a call to Receive with (own message, channel name, index) of the function's parameters"""
    a = n.d['args']
    return len(a) >= 3 and parms_in(g, a[1]) == {0} and parms_in(g, a[2]) == {2}


def inputs(ctx):
    r = 'input'
    for nm in ('HandleMsgInput', 'HandleMultipartInput'):
        for f in ctx.fns(DV + '::' + nm):
            g = dgraph(ctx, f, 'Receive', 'GetChannel')
            F = Facts(g)
            rec = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == DV + '::Receive']
            cb = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and short(n.d['q']) == 'operator()' and n.d.get('obj') is not None and parms_in(g, n.d['obj']) == {1}]

            def cl(n):
                if n in rec:
                    return 'R' if received(ctx, g, n, nm) else '?'
                if n in cb:
                    return 'K' if any(same_elem(g, n.d['args'][0], x.d['args'][0]) for x in rec) and parms_in(g, n.d['args'][1]) == {2} else '?'
                if n.kind == 'ret':
                    v = rv(n)
                    return '0' if cval(g, v) == 0 else 'v' if all(is_call(y, cb) or constval(y) == 0 for y in srcs(g, v)) else '?'
                return None

            def ed(n, m, lab):
                if n.kind == 'branch' and lab in (True, False):
                    key, pol = F.key(n.d['cond'])
                    if key[0] == 'op' and key[1] == '<' and result_of(g, key[2], rec) and constval(key[3]) == 0:
                        return 'n' if lab == pol else 'o'
                return None
            lang(ctx, r, '%s: the callback gets the message received for its channel and decides; otherwise it ends' % nm, g, cl, 'R (o K v|n (0|v))', edge=ed, legend='R Receive(message, channel, index), o/n received or not, K callback with that message and index, v its result returned, 0 false returned')
            if nm == 'HandleMsgInput':
                ms = [y for x in rec for s in srcs(g, x.d['args'][0]) for y in sub(s) if y[0] == 'call' and short(y[1]) == 'CreateMessage']
                ok = bool(ms) and all(any(z[0] == 'call' and z[1] == DV + '::GetChannel' and parms_in(g, z[3][0]) == {0} and parms_in(g, z[3][1]) == {2} for z in sub(g.resolve(y[2]))) for y in ms)
                ctx.ob(r, 'the message is made by the transport of the channel', ok, f.loc(), 'received into: %s' % [show(x.d['args'][0]) for x in rec])
    for f in ctx.fns(DV + '::HandleSingleChannelInput'):
        g = dgraph(ctx, f, 'HandleMsgInput', 'HandleMultipartInput')
        F = Facts(g)
        hs = handler_calls(g)

        def cl2(n):
            if n in hs:
                k = short(n.d['q'])
                src = MSGS if k == 'HandleMsgInput' else PARTS
                a = n.d['args']
                ok = any(fldq(y) == KEYS for y in sub(g.resolve(a[0]))) and any(fldq(y) == src for s in srcs(g, a[1]) for y in sub(s)) and cval(g, a[2]) == 0
                return ('H' if src == MSGS else 'G') if ok else '?'
            return 'w' if kept(g, n, hs) else None

        def ed2(n, m, lab):
            for q, l in ((MSGS, 'eE'), (PARTS, 'fF')):
                c = empty_of(g, F, n, lab, q)
                if c is not None:
                    return l[1] if c else l[0]
            return pending(g, F, n, lab) or verdict(g, F, n, lab, hs)
        lang(ctx, r, 'single channel: handled until a transition is pending or the callback is done', g, cl2, 'e ((y|q)* (p|N) (p|N|q|y)*|y* q (y|q)* H w ((y y* q|q q* y) (q|y)* H w)* (q|y)* (N|p) (N|p|q|y)*)|E (f ((y|q)* (p|N) (p|N|q|y)*|y* q (y|q)* G w ((y y* q|q q* y) (q|y)* G w)* (q|y)* (N|p) (N|p|q|y)*)|F)', edge=ed2,
                 legend='e/E message callbacks or none, f/F multipart callbacks or none, p/q a transition is pending or not, H/G one message/multipart handled, w its verdict kept, y/N go on or not')


def handler_calls(g):
    return [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['cls'] == DV and short(n.d['q']) in ('HandleMsgInput', 'HandleMultipartInput')]


def verdict(g, F, n, lab, hs, field=None):
    """branch on the verdict of a handler"""
    if n.kind != 'branch' or lab not in (True, False):
        return None
    if field is not None:
        c = cond_field(F, n, lab, field)
        return None if c is None else 'y' if c else 'N'
    key, pol = F.key(n.d['cond'])
    if is_call(key, hs):
        return 'wy' if lab == pol else 'wN'
    if result_of(g, key, hs):
        return 'y' if lab == pol else 'N'
    return None


def kept(g, n, hs, field=None):
    """the verdict of a handler is kept where it is looked at"""
    return n.kind in ('write', 'decl') and n.d.get('rhs') is not None and (is_call(strip(n.d['rhs']), hs) or field is not None and any(is_call(x, hs) for x in srcs(g, n.d['rhs']))) and (field is None or fldq(strip(n.d.get('lhs') or ('x',))) == field)


def polling(ctx):
    r = 'poll'
    for nm, field in (('HandleMultipleChannelInput', None), ('PollForTransport', DV + '::fMultitransportProceed')):
        for f in ctx.fns(DV + '::' + nm):
            g = dgraph(ctx, f, 'HandleMsgInput', 'HandleMultipartInput', 'HandleMultipleTransportInput', 'GetChannel')
            F = Facts(g)
            hs = handler_calls(g)
            live = [n for n in g.nodes if n.id in g.live]
            ci = [n for n in live if n.kind == 'call' and short(n.d['q']) == 'CheckInput']
            polls = [n for n in live if n.kind == 'call' and short(n.d['q']) == 'Poll']

            def at(n):
                """(channel, index) a call is about"""
                a = n.d['args']
                return (peel(g.resolve(a[0])), peel(g.resolve(a[-1])))

            def cl(n):
                if n in polls:
                    return 'Q'
                if n in hs:
                    k = short(n.d['q'])
                    src = MSGS if k == 'HandleMsgInput' else PARTS
                    ok = any(at(n) == at(x) for x in ci) and any(y[0] == 'call' and short(y[1]) in ('at', 'operator[]', 'find') and rooted(g, y[2], src) and peel(g.resolve(y[3][0])) == at(n)[0] for s in srcs(g, n.d['args'][1]) for y in sub(s))
                    return ('H' if src == MSGS else 'G') if ok else '?'
                if calls(n, DV + '::HandleMultipleTransportInput'):
                    return 'V'
                return 'w' if kept(g, n, hs, field) else None

            def multi(n, lab):
                if n.kind != 'branch' or lab not in (True, False):
                    return None
                key, pol = F.key(n.d['cond'])
                k = strip(g.resolve(key))
                if fldq(peel(k)) == CH + '::fMultipart':
                    own = any(y[0] == 'call' and y[1] == DV + '::GetChannel' and any((peel(g.resolve(y[3][0])), peel(g.resolve(y[3][1]))) == at(x) for x in ci) for y in sub(k))
                    return ('m' if lab == pol else 'M') if own else '?'
                return None

            def ed(n, m, lab):
                return call_result_edge(g, F, n, lab, ci, 'c', 'C') or multi(n, lab)

            def ed3(n, m, lab):
                return pending(g, F, n, lab) or verdict(g, F, n, lab, hs, field)
            lang(ctx, r, '%s: ready channels are handled by the callback of their kind' % nm, g, cl, '(C|c|Q|w|c m G|c M H|V)*', edge=ed,
                 legend='Q polled, c/C channel ready or not, m/M multipart or not, G/H multipart/message handler of that channel and index, V several transports')
            rx = '(y|N)* V (y|N)*|((q|y|(H|G) w q* y)* (q|(H|G) w q q* y) (q|y|(H|G) w q* y)* Q)* (q|y|(H|G) w q* y)* (p|N|(H|G) w q* (N|p)) [pqyN]*' if field is None else '([qypN]|(H|G) w)* ((q q* y|y y* q) Q ([qypN]|(H|G) w)*)*'
            lang(ctx, r, '%s: polling goes on until a transition is pending or a callback is done' % nm, g, cl, rx, edge=ed3, legend='p/q a transition is pending or not, Q polled, G/H a callback run, w its verdict kept, y/N go on or done, V several transports')
            lst = (lambda t: fldq(t) == KEYS) if field is None else (lambda t: t[0] == 'var' and parms_in(g, t) == {1})
            nested(ctx, r, '%s: all sub-channels of all input channels are looked at' % nm, g, ci, [lambda t: any(fldq(y) == DV + '::fChannels' for y in sub(t)), lst], f.loc(), 'CheckInput')
            cp = [n for n in live if n.kind == 'call' and short(n.d['q']) == 'CreatePoller']
            ok = len(cp) >= 1 and all(any(fldq(y) == DV + '::fChannels' for y in sub(g.resolve(n.d['args'][0]))) and lst(peel(g.resolve(n.d['args'][1]))) for n in cp)
            ctx.ob(r, '%s: the poller watches these channels' % nm, ok, f.loc(), 'created with: %s' % [[show(a) for a in n.d['args']] for n in cp])
            if field is not None:
                lk = must_locks(g)
                for n in hs:
                    ctx.ob(r, '%s: only one thread at a time runs callbacks' % nm, DV + '::fMultitransportMutex' in lk.get(n.id, ()), where(n), 'not under fMultitransportMutex')
                    ctx.ob(r, '%s: a callback runs only while no other is done' % nm, guarded_by_flag(g, F, n, field), where(n), 'fMultitransportProceed is not looked at under the lock before the callback')
            for n in polls:
                ctx.ob(r, '%s: polling is bounded' % nm, (constval(n.d['args'][0]) or 0) > 0, where(n), 'timeout: %s' % show(n.d['args'][0]))


def guarded_by_flag(g, F, n, field):
    lk = must_locks(g)

    def edge(x, m, lab, s):
        c = cond_field(F, x, lab, field)
        if c is not None and DV + '::fMultitransportMutex' in lk.get(x.id, ()):
            return c
        return s

    def step(x, s, fs):
        if x.kind == 'leave' or x.kind == 'dtor' and 'lock' in str(x.d.get('t')):
            s = s and DV + '::fMultitransportMutex' in lk.get(x.id, ())
        yield s
    reached, _ = run(g, False, step, edge)
    return all(s for _, s in reached.get(n.id, ()))


def several(ctx):
    r = 'several'
    MT = DV + '::fMultitransportInputs'
    for f in ctx.fns(DV + '::HandleMultipleChannelInput'):
        g = dgraph(ctx, f, 'HandleMsgInput', 'HandleMultipartInput', 'HandleMultipleTransportInput', 'GetChannel')
        F = Facts(g)
        live = [n for n in g.nodes if n.id in g.live]
        # keys grouped by the transport of their channel
        ps = [n for n in live if n.kind == 'call' and short(n.d['q']) in ('push_back', 'emplace_back') and n.d.get('obj') is not None and based(g, n.d['obj'], MT)]
        clr = [n for n in live if n.kind == 'call' and short(n.d['q']) == 'clear' and n.d.get('obj') is not None and base_is(g, n.d['obj'], MT)]
        ctx.ob(r, 'the groups of an earlier run are dropped', bool(clr) and not passes_before(g, lambda n: n in ps, lambda n: n in clr), f.loc(), 'fMultitransportInputs is not cleared first')
        each(ctx, r, 'every input channel is in one group', g, ps, lambda t: fldq(t) == KEYS, f.loc(), 'added to a group')
        for n in ps:
            ix = [y for s in srcs(g, n.d['obj']) for y in sub(s) if y[0] == 'call' and short(y[1]) in ('at', 'operator[]') and y[2] is not None and rooted(g, y[2], MT)]
            k = peel(g.resolve(n.d['args'][0]))
            ok = bool(ix) and all(any(fldq(z) == CH + '::fTransportType' and any(w[0] == 'call' and w[1] == DV + '::GetChannel' and peel(g.resolve(w[3][0])) == k for w in sub(z)) for s in srcs(g, y[3][0]) for z in sub(s)) for y in ix)
            ctx.ob(r, 'the group is the one of its transport', ok, where(n), 'added to %s' % show(n.d['obj']))
        fl = [n for n in live if n.kind == 'write' and fldq(strip(n.d['lhs'])) == CH + '::fMultipart']
        for q, v, w in ((MSGS, 0, 'message'), (PARTS, 1, 'multipart')):
            mine = [n for n in fl if constval(n.d['rhs']) == v]
            nested(ctx, r, 'channels with %s callbacks are marked so' % w, g, mine, [lambda t, q=q: any(fldq(y) == DV + '::fChannels' for y in sub(t)), lambda t, q=q: fldq(t) == q], f.loc(), 'fMultipart = %d' % v)
            for n in mine:
                ls = loops_around(g, n)
                ctx.ob(r, 'the mark of %s channels is the one of the callback' % w, elem_key(g, n, q), where(n), 'set on %s' % show(n.d['lhs']))
        ctx.ob(r, 'no other marks', all(constval(n.d['rhs']) in (0, 1) for n in fl), f.loc(), 'fMultipart is set to something else')

        def ed(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                if key[0] == 'op' and key[1] == '<' and len(key) == 4:
                    for i, (c, o) in enumerate(((key[2], key[3]), (key[3], key[2]))):
                        s = strip(g.resolve(o))
                        if s[0] == 'call' and short(s[1]) == 'size' and s[2] is not None and fldq(peel(g.resolve(s[2]))) == MT and constval(c) == (1 if i == 0 else 2):
                            return 's' if (lab == pol) == (i == 0) else 'o'
            return None
        lang(ctx, r, 'several transports are polled by threads of their own', g, lambda n: 'V' if calls(n, DV + '::HandleMultipleTransportInput') else 'Q' if n.kind == 'call' and short(n.d['q']) == 'CreatePoller' else None, 's V|o Q', edge=ed, legend='s/o more than one transport or not, V threads, Q poller')
    for f in ctx.fns(DV + '::HandleMultipleTransportInput'):
        g = dgraph(ctx, f, 'PollForTransport')
        live = [n for n in g.nodes if n.id in g.live]
        mk = [n for n in live if n.kind == 'call' and short(n.d['q']) in ('emplace_back', 'push_back') and 'thread' in str(n.d.get('q')) or n.kind == 'ctor' and n.d['t'] == 'std::thread' and n.d.get('args')]
        mk = [n for n in mk if not any(m is not n and m.kind == 'ctor' and n.kind == 'call' and m.line == n.line for m in mk)] or mk
        w = [n for n in live if n.kind == 'write' and fldq(strip(n.d['lhs'])) == DV + '::fMultitransportProceed' and cval(g, n.d['rhs']) == 1]
        ctx.ob(r, 'the threads start with permission to go on', bool(w) and not passes_before(g, lambda n: n in mk, lambda n: n in w), f.loc(), 'fMultitransportProceed is not set before the threads')
        each(ctx, r, 'one thread per transport', g, mk, lambda t: fldq(t) == MT, f.loc(), 'thread')
        for n in mk:
            lf = lam_fn(ctx, g, n.d['args'][0]) if n.d['args'] else None
            if not ctx.ob(r, 'the thread polls its transport', lf is not None and bool(lf.body), where(n), 'unknown thread function'):
                continue
            h = dgraph(ctx, lf, 'PollForTransport')
            FH = Facts(h)

            def clt(m):
                if calls(m, DV + '::PollForTransport'):
                    return 'P'
                if m.kind == 'write' and fldq(strip(m.d['lhs'])) == DV + '::fMultitransportProceed':
                    return 'F' if cval(h, m.d['rhs']) == 0 else '?'
                if m.kind in ('write', 'call') and any(y[0] == 'call' and y[1] == 'std::current_exception' for a in ([m.d['rhs']] if m.kind == 'write' else m.d['args']) for y in sub(a)):
                    return 'E' if m.kind == 'write' or short(m.d['q']) == 'operator=' else None
                return None

            def edt(m, k, lab):
                if calls(m, DV + '::PollForTransport') and lab == 'exc':
                    return 'X'
                if m.kind == 'branch' and lab in (True, False) and 'exception_ptr' in str(m.d['cond']):
                    return 's'
                return None
            lang(ctx, r, 'a thread that fails stops the others and its exception is kept', h, clt, 'P (X s* (F s* (E E?)?|E E? s* F))? z|P X s* [FEs]* e', edge=edt, ends=('exit', 'exc'), endsym={'exit': 'z', 'exc': 'e'}, legend='P polling, X it threw, F the others are told to stop, E exception kept, s kept one looked at')
            ctx.ob(r, 'the exception of a thread is kept', any(m.id in h.live and clt(m) == 'E' for m in h.nodes), where(n), 'current_exception() is not kept')
        js = [n for n in live if calls(n, 'std::thread::join')]
        re = [n for n in live if n.kind == 'call' and n.d['q'] == 'std::rethrow_exception']
        ctx.ob(r, 'an exception of a thread is rethrown after all are joined', bool(re) and bool(js) and not any(reach_after(g, x, js) for x in re), f.loc(), 'not rethrown, or threads are joined after it')


def elem_key(g, n, q):
    """the written field belongs to channels found under the key of the current element of q"""
    for s in srcs(g, n.d['lhs']):
        pass
    obj = n.d['lhs'][1] if n.d['lhs'][0] == 'fld' else n.d['lhs']
    out = []
    todo, seen = [obj], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for y in list(sub(g.resolve(t))) + [z for s in g.sources(t) for z in sub(s)]:
            if y[0] == 'call' and short(y[1]) in ('at', 'operator[]') and y[2] is not None and any(fldq(z) == DV + '::fChannels' for z in sub(g.resolve(y[2]))):
                out.append(y)
            if y[0] in ('var', 'op') and y not in seen and len(seen) < 60:
                todo.append(y)
    return bool(out) and all(any(fldq(w) == q for s in srcs(g, y[3][0]) for w in sub(s)) for y in out)


def reset(ctx):
    r = 'reset'
    for f in ctx.fns(DV + '::ResetWrapper'):
        g = dgraph(ctx, f)
        live = [n for n in g.nodes if n.id in g.live]

        def emptied(q):
            return [n for n in live if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], q) and short(n.d['q']) in ('clear', 'reset', 'swap') and not [a for a in n.d['args'] if constval(a) is None and a[0] != 'null']
                    or n.kind == 'write' and fldq(strip(n.d['lhs'])) == q and (cval(g, n.d['rhs']) == 0 or peel(n.d['rhs'])[0] == 'ctor' and not peel(n.d['rhs'])[2])]
        for q, what in ((BINDL, 'the list of unbound channels'), (CONNL, 'the list of unconnected channels'), (DV + '::fChannels', 'the channels'), (DV + '::fTransports', 'the transports'), (DV + '::fTransportFactory', 'the default transport')):
            e = emptied(q)
            ctx.ob(r, 'reset drops %s' % what, bool(e) and min(count_on_paths(g, lambda n: n in e) or {0}) >= 1, f.loc(), '%s is kept on some path' % short(q))
        rs = [n for n in live if n.kind == 'call' and n.d['q'] == 'fair::mq::TransportFactory::Reset']
        each(ctx, r, 'every transport is reset', g, rs, lambda t: fldq(t) == DV + '::fTransports', f.loc(), 'Reset')
        lk = must_locks(g)
        for n in rs + emptied(DV + '::fTransports'):
            ctx.ob(r, 'the transports are dropped under their lock', DV + '::fTransportMtx' in lk.get(n.id, ()), where(n), 'fTransportMtx not held')
        e = emptied(DV + '::fTransports')
        ctx.ob(r, 'transports are reset before they are dropped', not any(paths_missing(g, lambda n, x=x: n is x, lambda n: False) and reach_after(g, x, rs) for x in e), f.loc(), 'a transport is reset after the list is emptied')
        hk = [n for n in live if hook(n) == 'Reset']
        ec = emptied(DV + '::fChannels')
        ctx.ob(r, 'Reset() still sees the channels', not any(reach_after(g, x, hk) for x in ec), f.loc(), 'the channels are dropped before Reset()')


def reach_after(g, x, targets):
    seen, todo = set(), [m for m, l in x.succ if l != 'exc']
    ids = {t.id for t in targets}
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.id in ids:
            return True
        todo.extend(m for m, l in n.succ if l != 'exc')
    return False


CNT = {'GetBytesRx': 'bi', 'GetBytesTx': 'bo', 'GetMessagesRx': 'mi', 'GetMessagesTx': 'mo'}


def rates(ctx):
    r = 'rates'
    for f in ctx.fns(DV + '::LogSocketRates'):
        g = dgraph(ctx, f, 'WaitFor')
        F = Facts(g)
        live = [n for n in g.nodes if n.id in g.live]

        def root(t):
            t = peel(strip(t))
            while True:
                if t[0] == 'call' and short(t[1]) in ('at', 'operator[]') and t[2] is not None:
                    t = peel(strip(t[2]))
                elif t[0] in ('op',) and t[1] in ('idx', '[]'):
                    t = peel(strip(t[2]))
                else:
                    return t if t[0] in ('var', 'fld') else None
        ws = [(root(n.d['lhs']), n) for n in live if n.kind == 'write' and root(n.d['lhs']) is not None] + [(('var', n.d['var'], n.d.get('name', '')), n) for n in live if n.kind == 'decl' and n.d.get('var') is not None]
        from_cnt, kinds = {}, {}
        for v, n in ws:
            for y in sub(n.d.get('rhs') or ('x',)):
                if y[0] == 'call' and short(y[1]) in CNT:
                    kinds.setdefault(v[1], set()).add(CNT[short(y[1])])
        # values copied between the arrays
        for _ in range(3):
            for v, n in ws:
                x = root(n.d.get('rhs') or ('x',))
                if x is not None and x[1] in kinds:
                    kinds.setdefault(v[1], set()).update(kinds[x[1]])
        bad = [k for k, v in kinds.items() if len(v) > 1]
        ctx.ob(r, 'each counter is kept apart', len(kinds) >= 4 and not bad, f.loc(), 'mixed up: %s' % bad)
        # differences: new - old of the same counter
        diffs = []
        for v, n in ws:
            for y in sub(n.d.get('rhs') or ('x',)):
                if y[0] == 'op' and y[1] == '-' and len(y) == 4:
                    a, b = root(y[2]), root(y[3])
                    ka = kinds.get(a[1]) if a else {CNT[short(z[1])] for z in sub(y[2]) if z[0] == 'call' and short(z[1]) in CNT} or None
                    kb = kinds.get(b[1]) if b else None
                    if kb:
                        diffs.append((n, ka, kb, b))
        ctx.ob(r, 'a rate compares a counter with its own last value', {next(iter(kb)) for _, ka, kb, _ in diffs if ka == kb and len(kb) == 1} == set(CNT.values()) and all(ka == kb for _, ka, kb, _ in diffs), f.loc(), 'differences: %s' % [(ka, kb) for _, ka, kb, _ in diffs])
        tds = [(n, root(n.d['args'][0]), root(n.d['args'][1])) for n in live if calls(n, 'std::chrono::operator-') and len(n.d['args']) == 2 and 'duration' in str(n.d['t'])]
        if not ctx.ob(r, 'the time between two logs is measured', bool(tds) and bool(diffs) and all(b is not None for _, a, b in tds), f.loc(), 'no difference of two points in time'):
            continue
        lasts = {b[1] for _, a, b in tds}
        hd = min([(len(b), h.id, b) for h, b in natural_loops(g) if all(x[0].id in b for x in diffs)] or [(0, 0, set())])[2]
        if not ctx.ob(r, 'the rates of all channels are computed in a loop', bool(hd), f.loc(), 'no loop'):
            continue
        br = loop_branches(g, hd)

        def ed(n, m, lab):
            return 'z' if n in br and lab in (True, False) and m.id in hd else None
        for old in sorted({b[1] for *_, b in diffs}):
            def cl(n, old=old):
                if n.kind == 'write' and n.id in hd:
                    v = root(n.d['lhs'])
                    if v is not None and v[1] == old:
                        return 'o'
                    if v is not None and v[1] in lasts:
                        return 't'
                return 'd' if any(n is x[0] and x[3][1] == old for x in diffs) else None
            lang(ctx, r, 'time and counter (%s) of the last log are renewed together, after they were compared' % '/'.join(kinds[old]), g, cl, '(z (d (o [ot]* t|t [ot]* o) [ot]*)?)*', edge=ed, legend='z next channel, d rate computed, o counter of the last log renewed, t time of the last log renewed')


def transports(ctx):
    r = 'transport'
    TS = DV + '::fTransports'
    for f in ctx.fns(DV + '::AddTransport'):
        g = dgraph(ctx, f)
        F = Facts(g)

        def cl(n):
            if n.kind == 'call' and short(n.d['q']) == 'CreateTransportFactory':
                a = n.d['args']
                ok = any(y[0] == 'call' and 0 in parms_in(g, y[3][0]) for s in srcs(g, a[0]) for y in sub(s) if y[0] == 'call' and short(y[1]) in ('at', 'operator[]')) and fldq(peel(g.resolve(a[1]))) == DV + '::fId' and fldq(peel(g.resolve(a[2]))) == DV + '::fConfig'
                return 'C' if ok else '?'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], TS) and short(n.d['q']) in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
                return 'I' if 0 in parms_in(g, ('x', tuple(n.d['args']))) and any(y[0] == 'call' and short(y[1]) == 'CreateTransportFactory' for a in n.d['args'] for s in sub(g.resolve(a)) for z in [s] + list(g.sources(s)) for y in sub(z)) else '?'
            if n.kind == 'ret':
                ss = [y for s in srcs(g, rv(n)) for y in sub(s)]
                return 'c' if any(y[0] == 'call' and short(y[1]) == 'CreateTransportFactory' for y in ss) else 'r' if any(y[0] == 'call' and short(y[1]) in ('find', 'at', 'operator[]') and y[2] is not None and rooted(g, y[2], TS) for y in ss) else '?'
            return None

        def ed(n, m, lab):
            k = edge_lookup(F, g, n, lab, TS)
            if k:
                return 'f' if k == 'present' else 'n'
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                if key[0] == 'op' and key[1] == '==' and any(enum_of(g, x, 'fair::mq::Transport') == 'DEFAULT' for x in key[2:4]):
                    return 'D' if lab == pol else 'E'
            return None
        lang(ctx, r, 'each transport is made once and shared', g, cl, '(D|E) (f r|n C I (c|r))', edge=ed, legend='D/E the default transport or a specific one asked for, f/n there is one already or not, C made with the device id and configuration, I kept, r/c the kept/new one returned')
        w = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and parm_idx(g, strip(n.d['lhs'])) == 0]
        ok = bool(w) and all(fldq(peel(g.resolve(n.d['rhs']))) == DV + '::fDefaultTransportType' for n in w)
        ctx.ob(r, 'the default transport stands for the configured one', ok, f.loc(), 'DEFAULT is not replaced by fDefaultTransportType')
    guarded(ctx, r, [f for f in ctx.fns(DV + '::AddTransport') + ctx.fns(DV + '::InterruptTransports') + ctx.fns(DV + '::ResumeTransports') + ctx.fns(DV + '::ResetWrapper')], {TS: DV + '::fTransportMtx'})
