"""C07: EventManager."""
from .core import prop, run, Facts, short, fmt_trace, show, sub
from .lib import *

EM = 'fair::mq::EventManager'
SIG, CON, MTX = EM + '::fSignals', EM + '::fConnections', EM + '::fMutex'


def is_sig_call(n):
    return n.kind == 'call' and n.d['cls'].startswith('boost::signals2::signal<') and short(n.d['q']) == 'operator()'


def pick(fns):
    own = [f for f in fns if 'fmqx_inst' in f.ta]
    return own or fns[:1]


@prop('C07', ['analyzer/inst_core.cpp'])
def check(ctx):
    """publish/subscribe"""
    roots = {}
    for n in ('Subscribe', 'Unsubscribe', 'Emit'):
        roots[n] = pick(ctx.fns(EM + '::' + n))[0]
    others = [f for f in ctx.P.fns.values() if f.clsq == EM and f.kind == 'method' and f.acc == 'public' and f.name not in roots]
    # every instantiation has the same body; private helpers are reached by inlining
    h = guarded(ctx, 'guarded-by', list(roots.values()) + others, {SIG: MTX, CON: MTX})
    if len(h) < 3:
        ctx.broken('fewer than 3 guarded accesses to the subscription tables')

    # callbacks run without the internal mutex
    for n, f in list(roots.items()):
        g = ctx.graph(f)
        yl = may_locks(g)
        for x in g.find(is_sig_call):
            ctx.ob('no-callback-under-lock', '%s invokes callbacks' % n, MTX not in yl[x.id], where(x), 'signal invoked while the subscription mutex is held')
    # -- Emit: the signal for this key is invoked exactly once, with key and arguments in order
    g = ctx.graph(roots['Emit'])
    calls = g.find(is_sig_call)
    cnt = count_on_paths(g, is_sig_call)
    ctx.ob('emit-once', 'Emit invokes the signal exactly once', set(cnt) == {1}, roots['Emit'].loc(), 'paths to return with %s invocations' % sorted(cnt), cnt.get(0) or cnt.get(2))
    for x in calls:
        ctx.ob('emit-from-table', 'Emit invokes the signal registered for the event', rooted_src(g, x.d['obj'], SIG), where(x), 'signal does not come from the signal table: ' + show(x.d['obj']))
        idx = [parm_idx(g, a) for a in x.d['args']]
        ctx.ob('emit-args', 'Emit passes key and arguments', idx == list(range(len(roots['Emit'].params))), where(x), 'arguments passed: ' + ', '.join(show(a) for a in x.d['args']))

    # -- keys agree
    keys, ckeys = {}, {}
    for n, f in roots.items():
        g = ctx.graph(f)
        for x in container_ops(g, SIG):
            for a in x.d['args']:
                keys.setdefault(n, set()).add(keyterm(g, a))
        for x in container_ops(g, CON):
            for a in x.d['args']:
                c = keyterm(g, a)
                if c is not None:
                    ckeys.setdefault(n, set()).add(c)
    sk = set().union(*[v for v in keys.values()]) - {None}
    ctx.ob('key-agreement', 'Subscribe and Emit address the signal table with the same key', len(sk) == 1 and 'Emit' in keys and 'Subscribe' in keys,
           roots['Emit'].loc(), 'different signal keys: ' + ' / '.join(sorted(map(str, sk)))[:400])
    ck = set().union(*[v for v in ckeys.values()]) - {None} if ckeys else set()
    ck = {('SUBSCRIBER',) + c[2:] if c[:1] == ('pair',) else c for c in ck}
    ctx.ob('key-agreement', 'Subscribe and Unsubscribe address the connection table with the same key', len(ck) == 1 and 'Unsubscribe' in ckeys and 'Subscribe' in ckeys,
           roots['Unsubscribe'].loc(), 'different connection keys: ' + ' / '.join(sorted(map(str, ck)))[:400])
    k = next(iter(sk), ())
    tys = [s[1] for s in sub(k) if s[0] == 'x' and str(s[1]).startswith('typeid:')]
    ctx.ob('key-discriminates', 'signal key contains the event type', any(t == 'typeid:fmqx_inst::Ev' for t in tys), roots['Emit'].loc(), str(tys))
    ctx.ob('key-discriminates', 'signal key contains the callback signature', any('std::function<void (' in t and 'int)' in t for t in tys), roots['Emit'].loc(), str(tys))
    for n in ('Subscribe', 'Unsubscribe'):
        g = ctx.graph(roots[n])
        for x in container_ops(g, CON):
            for a in x.d['args']:
                c = keyterm(g, a)
                if c is None:
                    continue
                ok = 0 in parms_in(g, a) and all(any(s == tt for s in sub(c)) for tt in sub(k) if tt[0] == 'x')
                ctx.ob('connection-key', '%s: connection key names subscriber and signal (%s)' % (n, short(x.d['q'])), ok, where(x), 'key %s' % show(a))

    # -- Subscribe typestate
    f = roots['Subscribe']
    g = ctx.graph(f)
    F = Facts(g)

    def connects(n):
        return n.kind == 'call' and n.d['cls'].startswith('boost::signals2::signal<') and short(n.d['q']).startswith('connect')
    cc = g.find(connects)
    cnt = count_on_paths(g, connects)
    ctx.ob('subscribe-connects', 'Subscribe connects the callback exactly once', set(cnt) == {1}, f.loc(), 'paths with %s connects' % sorted(cnt))
    for x in cc:
        ctx.ob('subscribe-connects', 'the subscribed callback is connected to the event\'s signal', rooted_src(g, x.d['obj'], SIG) and any(1 in parms_in(g, a) for a in x.d['args']), where(x), show(x.d['term']))

    def step(n, s, fs):
        st, ins = s
        if n.kind == 'call' and n.d.get('obj') is not None:
            nm = short(n.d['q'])
            if nm == 'disconnect' and n.d['cls'] == 'boost::signals2::connection' and rooted_src(g, n.d['obj'], CON):
                st = 'disconnected'
            elif nm == 'erase' and base_is(g, n.d['obj'], CON):
                st = 'absent' if st in ('disconnected', 'absent') else 'leaked'
            elif nm in INSERTERS and base_is(g, n.d['obj'], CON):
                ok = st == 'absent' or (st == 'disconnected' and nm == 'insert_or_assign')
                ins = 'ok' if ok else 'bad:' + st
        if n.kind == 'write' and n.d['lhs'][0] in ('call', 'idx', 'fld', 'deref') and n.d.get('cls') == 'boost::signals2::connection' and rooted_src(g, n.d['lhs'], CON):
            ins = 'ok' if st in ('absent', 'disconnected') else 'bad:' + st
        return ((st, ins),)

    def edge(n, m, lab, s):
        l = edge_lookup(F, g, n, lab, CON)
        if l and s[0] in ('start', 'present', 'absent'):
            return (l, s[1])
        return s
    reached, trace = run(g, ('start', None), step, edge)
    res = {}
    for st in reached.get(g.exit.id, ()):
        res.setdefault(st[1][1], fmt_trace(trace(g.exit, st)))
    for r, tr in res.items():
        ctx.ob('resubscribe-replaces', 'Subscribe stores the new connection after disconnecting a previous one', r == 'ok', f.loc(),
               {None: 'a path does not store the connection'}.get(r, 'connection stored in state %s: an existing connection of this subscriber is not disconnected first, or the new one is dropped' % r), tr)
    for x in g.find(lambda n: n.kind == 'call' and short(n.d['q']) in INSERTERS and n.d.get('obj') is not None and base_is(g, n.d['obj'], CON)):
        src = set()
        for a in x.d['args']:
            src |= {short(q) for q in g.src_calls(a)}
        ctx.ob('resubscribe-replaces', 'the stored connection is the one returned by connect', any(s.startswith('connect') for s in src), where(x), 'stored value does not come from connect()')

    # -- Unsubscribe typestate
    f = roots['Unsubscribe']
    g = ctx.graph(f)

    def step2(n, s, fs):
        if n.kind == 'call' and n.d.get('obj') is not None:
            nm = short(n.d['q'])
            if nm == 'disconnect' and n.d['cls'] == 'boost::signals2::connection' and rooted_src(g, n.d['obj'], CON):
                s = 'disc' if s == 'start' else s
            elif nm in ('erase', 'extract') and base_is(g, n.d['obj'], CON):
                s = 'done' if s == 'disc' else 'erased-connected'
        return (s,)
    F2 = Facts(g)

    def edge2(n, m, lab, s):
        l = edge_lookup(F2, g, n, lab, CON)
        if l == 'absent' and s == 'start':
            return 'done'
        return s
    reached, trace = run(g, 'start', step2, edge2)
    for st in {x[1] for x in reached.get(g.exit.id, ())}:
        ctx.ob('unsubscribe-disconnects', 'Unsubscribe disconnects the callback, then forgets it', st == 'done', f.loc(), 'returns in state %s' % st)
    if g.exit.id not in reached:
        ctx.bad('unsubscribe-disconnects', 'Unsubscribe disconnects the callback, then forgets it', f.loc(), 'never returns')

    # -- signal table: no entry is ever replaced or removed while in use
    for n, f in roots.items():
        g = ctx.graph(f)
        F = Facts(g)
        for x in container_ops(g, SIG):
            nm = short(x.d['q'])
            if nm in ('erase', 'clear', 'swap', 'extract'):
                ctx.bad('signal-kept', '%s removes a signal' % n, where(x), 'subscribers of a removed signal are lost')
        mf = None
        for x in g.nodes:
            if x.id not in g.live:
                continue
            over = x.kind == 'call' and short(x.d['q']) == 'insert_or_assign' and x.d.get('obj') is not None and base_is(g, x.d['obj'], SIG)
            over = over or x.kind == 'write' and x.d.get('op') == '=' and rooted(g, x.d['lhs'], SIG) and x.d['lhs'][0] != 'var'
            if over:
                if mf is None:
                    mf = must_facts(g)
                ok = any(lookup_kind(g, k2, v, SIG) == 'absent' for k2, v in mf.get(x.id, ()))
                ctx.ob('signal-kept', '%s: signal stored only when absent' % n, ok, where(x), 'an existing signal (and its subscribers) may be overwritten')
    g = ctx.graph(roots['Subscribe'])
    ins = [x for x in container_ops(g, SIG) if short(x.d['q']) in INSERTERS or short(x.d['q']) == 'operator[]']
    ctx.ob('signal-kept', 'a signal is created and stored for a new event type', len(ins) >= 1, roots['Subscribe'].loc(), 'nothing inserts into the signal table')


def rooted_src(g, t, q):
    return any(s[0] == 'fld' and s[2] == q for s in g.sources(t))


def keyterm(g, a):
    c = canon(g, a)
    # insert(pair(key, value)) -> key; iterators -> key of the lookup
    if c[0] == 'pair' and len(c) == 3 and c[1] and c[1][0] == 'pair':
        return c[1]
    if c[0] == 'pair' and any(s[0] == 'x' for s in sub(c)):
        return c
    if c[0] == 'call' and short(c[1]) == 'find' and c[3]:
        return c[3][0] if c[3][0][0] == 'pair' else None
    return None
