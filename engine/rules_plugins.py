"""C26, C27, C28, C37: plugin services, plugin manager, builtin plugins, device runner."""
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .rules_channel import lam_fn
from .rules_region import srcs, peel, cond_field

PS = 'fair::mq::PluginServices'
PL = 'fair::mq::Plugin'
PO = 'fair::mq::ProgOptions'
DEV = 'fair::mq::Device'
LOG = 'fair::Logger'
CTL = PS + '::fDeviceController'
MTX = PS + '::fDeviceControllerMutex'
CTLFNS = ('TakeDeviceControl', 'StealDeviceControl', 'ReleaseDeviceControl', 'GetDeviceController', 'ChangeDeviceState')
UNITS = ['fairmq/PluginServices.cxx', 'fairmq/Plugin.cxx', 'analyzer/inst_core.cpp', 'analyzer/inst_devices.cpp']
MINE = ('fkName',)          # an argument that is the plugin's own name


# ------------------------------------------------------------------ C26
@prop('C26', UNITS)
def c26(ctx):
    """exclusive device control, faithful plugin interface"""
    guarded(ctx, 'guard', [f for n in CTLFNS + ('WaitForReleaseDeviceControl',) for f in ctx.fns(PS + '::' + n)], {CTL: MTX})
    control(ctx)
    forwarding(ctx)


def opt_cond(g, F, n, lab, q):
    """what a branch says about the optional field q: ('some', bool) or ('is', other term, bool)"""
    if n.kind != 'branch' or lab not in (True, False):
        return None
    key, pol = F.key(n.d['cond'])
    val = lab == pol
    key = peel(g.resolve(key)) if key[0] != 'op' else key
    if fldq(key) == q:
        return ('some', val)
    if key[0] == 'call' and key[2] is not None and fldq(peel(g.resolve(key[2]))) == q:
        if short(key[1]) in ('operator!',):
            return ('some', not val)
        if short(key[1]) in ('operator bool', 'has_value', 'is_initialized'):
            return ('some', val)
    if key[0] == 'op' and key[1] in ('==', '!=') or key[0] == 'call' and short(key[1]) in ('operator==', 'operator!='):
        a, b = key[2:4] if key[0] == 'op' else ([key[2]] if key[2] is not None else []) + list(key[3])
        eq = val == ((key[1] if key[0] == 'op' else short(key[1])[8:]) == '==')
        for x, y in ((a, b), (b, a)):
            xs = g.resolve(x)
            if any(fldq(z) == q for z in sub(xs)) and not any(fldq(z) == q for z in sub(g.resolve(y))):
                if 'none' in show(y) and not parms_in(g, y):
                    return ('some', not eq)
                return ('is', y, eq)
    return None


def sets_opt(g, n, q):
    """write to the optional field: 'none', parameter index, or '?'"""
    if n.kind == 'write' and fldq(strip(n.d['lhs'])) == q:
        p = parms_in(g, n.d['rhs']) if n.d.get('rhs') is not None else set()
        if len(p) == 1:
            return next(iter(p))
        return 'none' if n.d.get('rhs') is not None and ('none' in show(n.d['rhs']) or show(g.resolve(n.d['rhs'])) in ('optional{}',)) else '?'
    if n.kind == 'call' and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == q:
        s = short(n.d['q'])
        if s == 'reset' and not n.d['args']:
            return 'none'
        if s in ('emplace', 'assign') or s == 'reset':
            p = parms_in(g, n.d['args'][0])
            return next(iter(p)) if len(p) == 1 else '?'
        if s == 'swap':
            return '?'
    return None


def control(ctx):
    D = DEV + '::ChangeState'
    inl = lambda fn: fn.clsq not in (DEV, PO) and not fn.q.startswith('fair::mq::tools::')

    def letters(g):
        F = Facts(g)

        def cl(n):
            w = sets_opt(g, n, CTL)
            if w is not None:
                return 'T' if w == 0 else 'N' if w == 'none' else '?'
            if n.kind == 'call' and n.d['q'] == D:
                return 'C' if parms_in(g, n.d['args'][0]) == {1} else '?'
            if n.kind == 'call' and short(n.d['q']) in ('notify_one', 'notify_all') and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == PS + '::fReleaseDeviceControlCondition':
                return 'W'
            if n.kind == 'throw':
                return 'E' if 'DeviceControlError' in show(n.d['term']) else 'e'
            if n.kind == 'call' and short(n.d['q']).startswith('wait') and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == PS + '::fReleaseDeviceControlCondition':
                return 'w'
            return None

        def ed(n, m, lab):
            c = opt_cond(g, F, n, lab, CTL)
            if c is None:
                return None
            if c[0] == 'some':
                return 's' if c[1] else 'n'
            if parms_in(g, c[1]) == {0}:
                return 'm' if c[2] else 'o'
            return None
        return cl, ed
    LEG = 'n/s nobody/somebody in control, m/o it is the caller / another, T caller takes control, N control cleared, C the requested state change, E DeviceControlError, W waiters notified, w wait'
    one = lambda nm: ctx.fns(PS + '::' + nm)
    for f in one('ChangeDeviceState'):
        g = ctx.graph(f, inline=inl)
        cl, ed = letters(g)
        ends = {'exit': 'r', 'exc': 't'}
        # after a failed check for "nobody" the controller is compared; a throw without a verdict can only come from library code
        lang(ctx, 'change', 'ChangeDeviceState: only the controller (or the first comer) changes states', g, cl, '(s|m|o)*t | n T m? s? C (r|t) | n T? t | n T s? o E t | s? m s? C (r|t) | n m C (r|t) | s? o s? E t | (s|n|o|T)* t', ends=('exit', 'exc'), edge=ed, endsym=ends, legend=LEG)
        rs = [n for n in ret_values(g)]
        ok = rs and all(set(srcs(g, rv(n))) and all(peel(s)[0] == 'call' and peel(s)[1] == D for s in srcs(g, rv(n))) for n in rs)
        ctx.ob('change', 'ChangeDeviceState: the device\'s own verdict is returned', ok, f.loc(), 'a return gives something other than the result of Device::ChangeState')
    for f in one('TakeDeviceControl'):
        g = ctx.graph(f, inline=inl)
        cl, ed = letters(g)
        lang(ctx, 'take', 'TakeDeviceControl: free control is taken, own kept, otherwise refused', g, cl, '(s|m|o|n)*t | n T (r|t) | s? m s? T? (r|t) | s? o s? E t', ends=('exit', 'exc'), edge=ed, endsym={'exit': 'r', 'exc': 't'}, legend=LEG)
    for f in one('StealDeviceControl'):
        g = ctx.graph(f, inline=inl)
        cl, ed = letters(g)
        lang(ctx, 'steal', 'StealDeviceControl: the caller is in control afterwards', g, cl, '(s|n|m|o)*T|(s|n)*m', edge=ed, legend=LEG)
    for f in one('ReleaseDeviceControl'):
        g = ctx.graph(f, inline=inl)
        cl, ed = letters(g)
        lang(ctx, 'release', 'ReleaseDeviceControl: only the controller releases, and waiters are told', g, cl, '(s|n)* (m s? N W | (o|n) W? )|n W?', edge=ed, legend=LEG)
    for f in one('GetDeviceController'):
        g = ctx.graph(f, inline=inl)
        rs = ret_values(g)
        ok = rs and all(all(fldq(peel(s)) == CTL for s in srcs(g, rv(n))) for n in rs)
        ctx.ob('get', 'GetDeviceController gives the controller', ok, f.loc(), 'returns something else')
    for f in one('WaitForReleaseDeviceControl'):
        g = ctx.graph(f, inline=inl)
        cl, ed = letters(g)
        lang(ctx, 'wait', 'WaitForReleaseDeviceControl returns only when nobody is in control', g, cl, '(s? w)* n', edge=ed, legend=LEG)
        ctx.ob('wait', 'waits on the condition that ReleaseDeviceControl signals', any(cl(n) == 'w' for n in g.nodes if n.id in g.live), f.loc(), 'no wait on fReleaseDeviceControlCondition')
    # nobody else writes the controller
    own = {f.id for nm in CTLFNS for f in ctx.fns(PS + '::' + nm)}
    for f in ctx.P.fns.values():
        if f.body and f.clsq == PS and f.id not in own and f.kind not in ('ctor', 'dtor') and f.name != 'WaitForReleaseDeviceControl':
            g = ctx.graph(f, inline=lambda fn: False)
            bad = [n for n in g.nodes if n.id in g.live and sets_opt(g, n, CTL) is not None]
            if bad:
                ctx.bad('writers', '%s leaves the controller alone' % short(f.q), where(bad[0]), 'writes fDeviceController')


# (interface function, number of parameters or None) -> (target, arguments); arguments: parameter index, or 'N' own name
D_, P_, L_ = DEV + '::', PO + '::', LOG + '::'
FORWARD = [
    ('ToDeviceState', 'fair::mq::GetState', (0,)), ('ToDeviceStateTransition', 'fair::mq::GetTransition', (0,)),
    ('GetCurrentDeviceState', D_ + 'GetCurrentState', ()),
    ('SubscribeToDeviceStateChange', D_ + 'SubscribeToStateChange', ('N', 'cb')), ('UnsubscribeFromDeviceStateChange', D_ + 'UnsubscribeFromStateChange', ('N',)),
    ('GetNumberOfConnectedPeers', D_ + 'GetNumberOfConnectedPeers', (0, 1)),
    ('PropertyExists', P_ + 'Count', (0,)),
    ('GetProperty', P_ + 'GetProperty', None), ('GetPropertyAsString', P_ + 'GetPropertyAsString', None),
    ('GetProperties', P_ + 'GetProperties', (0,)), ('GetPropertiesStartingWith', P_ + 'GetPropertiesStartingWith', (0,)),
    ('GetPropertiesAsString', P_ + 'GetPropertiesAsString', (0,)), ('GetPropertiesAsStringStartingWith', P_ + 'GetPropertiesAsStringStartingWith', (0,)),
    ('GetChannelInfo', P_ + 'GetChannelInfo', ()), ('GetPropertyKeys', P_ + 'GetPropertyKeys', ()),
    ('SetProperty', P_ + 'SetProperty', (0, 1)), ('SetProperties', P_ + 'SetProperties', (0,)), ('UpdateProperty', P_ + 'UpdateProperty', (0, 1)), ('UpdateProperties', P_ + 'UpdateProperties', (0,)),
    ('DeleteProperty', P_ + 'DeleteProperty', (0,)),
    ('SubscribeToPropertyChange', P_ + 'Subscribe', ('N', 'cb')), ('UnsubscribeFromPropertyChange', P_ + 'Unsubscribe', ('N',)),
    ('SubscribeToPropertyChangeAsString', P_ + 'SubscribeAsString', ('N', 'cb')), ('UnsubscribeFromPropertyChangeAsString', P_ + 'UnsubscribeAsString', ('N',)),
    ('CycleLogConsoleSeverityUp', L_ + 'CycleConsoleSeverityUp', ()), ('CycleLogConsoleSeverityDown', L_ + 'CycleConsoleSeverityDown', ()),
    ('CycleLogVerbosityUp', L_ + 'CycleVerbosityUp', ()), ('CycleLogVerbosityDown', L_ + 'CycleVerbosityDown', ()),
    ('TakeDeviceControl', PS + '::TakeDeviceControl', ('N',)), ('StealDeviceControl', PS + '::StealDeviceControl', ('N',)), ('ChangeDeviceState', PS + '::ChangeDeviceState', ('N', 0)),
]
VOID = {'SubscribeToDeviceStateChange', 'UnsubscribeFromDeviceStateChange', 'SetProperty', 'SetProperties', 'DeleteProperty', 'SubscribeToPropertyChange', 'UnsubscribeFromPropertyChange',
        'SubscribeToPropertyChangeAsString', 'UnsubscribeFromPropertyChangeAsString', 'TakeDeviceControl', 'StealDeviceControl'} | {x for x, _, _ in FORWARD if x.startswith('CycleLog')}


def lam_calls_param(ctx, g, t, pidx):
    """the callable is root parameter pidx itself, or a lambda that does nothing but call it with its own arguments"""
    if parms_in(g, t) == {pidx}:
        return True
    lf = lam_fn(ctx, g, t)
    if lf is None:
        return False
    h = ctx.graph(lf, inline=lambda fn: False)
    name = g.root.params[pidx]['n'] if len(g.root.params) > pidx else None
    calls = [n for n in h.nodes if n.id in h.live and n.kind == 'call' and short(n.d['q']) == 'operator()']
    ok = [n for n in calls if [sorted(parms_in(h, a)) for a in n.d['args']] == [[i] for i in range(len(lf.params))]]
    return len(calls) == len(ok) >= 1 and set(count_on_paths(h, lambda n: n in ok)) == {1}


def positive(g, F, q):
    """every returned value is 'the call to q is > 0'"""
    def isq(t):
        return t[0] == 'call' and t[1] == q

    def pol(t):
        """+1: t true iff count > 0; -1: iff zero"""
        key, p = F.key(t)
        if key[0] == 'op' and len(key) == 4:
            a, b = key[2], key[3]
            if key[1] == '<' and constval(a) == 0 and isq(strip(g.resolve(b))):
                return 1 if p else -1
            if key[1] == '<' and constval(b) == 1 and isq(strip(g.resolve(a))):
                return -1 if p else 1
            if key[1] == '<=' and constval(a) == 1 and isq(strip(g.resolve(b))):
                return 1 if p else -1
            if key[1] == '==' and any(constval(y) == 0 and isq(strip(g.resolve(x))) for x, y in ((a, b), (b, a))):
                return -1 if p else 1
        if isq(strip(g.resolve(key))):
            return 1 if p else -1
        return 0
    out = []

    def ed(n, m, lab, s):
        if n.kind == 'branch' and lab in (True, False):
            p = pol(n.d['cond'])
            if p:
                return 1 if (p > 0) == lab else -1
        return s

    def step(n, s, fs):
        if n.kind == 'write' and n.d.get('ret') or n.kind == 'ret' and rv(n) is not None:
            t = n.d.get('rhs') if n.kind == 'write' else rv(n)
            if n.kind == 'ret' and t[0] == 'var' and g.vinfo.get(t[1], {}).get('kind') in ('ret', None) and any(x.kind == 'write' and x.d.get('ret') for x in g.nodes):
                return (s,)
            c = cval(g, t)
            out.append((n, c == 1 and s == 1 or c == 0 and s == -1 or c is None and pol(t) == 1))
        return (s,)
    run(g, 0, step, ed)
    return out and all(o for _, o in out), [n for n, o in out if not o]


def forwarding(ctx):
    r = 'forward'
    n_inst = 0
    for cls, other in ((PL, PS), (PS, None)):
        for nm, target, spec in FORWARD:
            if cls == PS and nm in CTLFNS:
                continue
            seen = set()
            for f in ctx.fns(cls + '::' + nm):
                if not f.body:
                    continue
                key = (tuple(p['t'] for p in f.params), f.ta)
                if key in seen:
                    continue
                seen.add(key)
                off = 0
                want = spec
                if want is None:
                    want = tuple(range(len(f.params)))
                if cls == PS and 'N' in want:      # PluginServices takes the subscriber as first parameter
                    want = tuple(0 if x == 'N' else x for x in want)
                    off = 1
                inst = '%s::%s%s(%s)' % (short(cls), nm, f.ta or '', ', '.join(p['n'] for p in f.params))
                g = ctx.graph(f, inline=lambda fn: fn.clsq in (PL, PS) and fn.q != target or fn.kind == 'lambda')
                tg = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == target]
                others = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] != target and (n.d['cls'] or '').replace(' &', '') in (DEV, PO, PS) and not (n.d.get('const'))]
                n_inst += 1
                if not ctx.ob(r, inst + ' reaches its counterpart exactly once', set(count_on_paths(g, lambda n: n in tg)) == {1}, f.loc(), 'some path does not call %s exactly once' % target):
                    continue
                ctx.ob(r, inst + ' does nothing else', not [n for n in others if short(n.d['q']) not in ('GetPluginServices',) and n.d['cls'] != PS], f.loc(), 'also calls %s' % ', '.join(sorted({n.d['q'] for n in others})))
                for n in tg:
                    a = list(n.d['args'])
                    ok = len(a) == len(want)
                    for w, x in zip(want, a):
                        if w == 'N':
                            ok &= any(fldq(peel(s)) == PL + '::fkName' for s in srcs(g, x))
                        elif w == 'cb':
                            ok &= lam_calls_param(ctx, g, x, len(f.params) - 1)
                        else:
                            ok &= parms_in(g, x) == {w}
                    ctx.ob(r, inst + ' passes its own arguments on', ok, where(n), 'called as %s(%s), expected (%s)' % (short(target), ', '.join(show(g.resolve(x)) for x in a), ', '.join('plugin name' if w == 'N' else 'callback' if w == 'cb' else f.params[w]['n'] for w in want)))
                    if f.ta and n.d.get('ta'):
                        ctx.ob(r, inst + ' asks for the same type', f.ta == n.d['ta'], where(n), 'template argument %s, called with %s' % (f.ta, n.d['ta']))
                if nm in VOID:
                    continue
                if nm == 'PropertyExists':
                    ok, badn = positive(g, Facts(g), target)
                    ctx.ob(r, inst + ' tells whether there is one', ok, where(badn[0]) if badn else f.loc(), 'the result is not "count > 0"')
                    continue
                rs = ret_values(g)
                ok = rs and all(set(srcs(g, rv(n))) and all(peel(s)[0] == 'call' and peel(s)[1] == target for s in srcs(g, rv(n))) for n in rs)
                ctx.ob(r, inst + ' returns what it got', ok, f.loc(), 'returned: %s' % sorted({show(s) for n in rs for s in srcs(g, rv(n))}))
    # Plugin::ReleaseDeviceControl: releases exactly if it is in control
    for f in ctx.fns(PL + '::ReleaseDeviceControl'):
        g = ctx.graph(f, inline=lambda fn: fn.clsq == PL)
        F = Facts(g)

        def cl(n):
            if n.kind == 'call' and n.d['q'] == PS + '::ReleaseDeviceControl':
                return 'R' if any(fldq(peel(s)) == PL + '::fkName' for s in srcs(g, n.d['args'][0])) else '?'
            return None

        def ed(n, m, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            if key[0] == 'op' and key[1] in ('==',) and any(y[0] == 'call' and y[1] == PS + '::GetDeviceController' for y in sub(g.resolve(key))) and any(fldq(y) == PL + '::fkName' for y in sub(g.resolve(key))):
                return 'm' if lab == pol else 'o'
            return None
        lang(ctx, r, 'Plugin::ReleaseDeviceControl releases under the plugin\'s own name', g, cl, 'm?R | oR?', edge=ed, legend='m/o this plugin is / is not in control, R PluginServices::ReleaseDeviceControl(own name)')
    # PluginServices::ToStr overloads by parameter type
    for cls in (PS, PL):
        for f in ctx.fns(cls + '::ToStr'):
            target = 'fair::mq::GetTransitionName' if 'Transition' in f.params[0]['t'] else 'fair::mq::GetStateName'
            g = ctx.graph(f, inline=lambda fn: fn.clsq in (PL, PS))
            rs = ret_values(g)
            ok = rs and all(set(srcs(g, rv(n))) and all(peel(s)[0] == 'call' and peel(s)[1] == target and parms_in(g, peel(s)[3][0]) == {0} for s in srcs(g, rv(n))) for n in rs)
            ctx.ob(r, '%s::ToStr(%s)' % (short(cls), short(f.params[0]['t'])), ok, f.loc(), 'does not return %s(argument)' % target)
    # the services are the ones handed in
    for f in ctx.fns(PL + '::Plugin'):
        if len(f.params) == 5:
            for fld, i in (('fkName', 0), ('fkVersion', 1), ('fkMaintainer', 2), ('fkHomepage', 3), ('fPluginServices', 4)):
                g = ctx.graph(f)
                ws = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and fldq(strip(n.d['lhs'])) == PL + '::' + fld]
                ctx.ob(r, 'Plugin keeps its %s' % fld, bool(ws) and all(parms_in(g, n.d['rhs']) == {i} for n in ws), f.loc(), 'not initialised from constructor parameter %d' % i)
    if n_inst < 50:
        ctx.broken('only %d interface functions found' % n_inst)


# ------------------------------------------------------------------ C28
from .rules_state import SPEC as TABLE
from .rules_locks import lam_results
CT = 'fair::mq::plugins::Control'
SQ = 'fair::mq::StateQueue'
CUNITS = ['plugins/control/Control.cxx', 'plugins/config/Config.cxx', 'fairmq/PluginServices.cxx', 'fairmq/Plugin.cxx', 'analyzer/inst_core.cpp']
STATE, TRANS = 'fair::mq::State', 'fair::mq::Transition'
SEQ = ('RunStartupSequence', 'RunREPL', 'RunShutdownSequence', 'StaticMode', 'InteractiveMode', 'GUIMode', 'SignalHandler')
SHUT, PSHUT, HAS = (CT + '::' + x for x in ('fDeviceShutdownRequested', 'fPluginShutdownRequested', 'fDeviceHasShutdown'))


@prop('C28', CUNITS)
def c28(ctx):
    """builtin control plugin"""
    shutdown(ctx)
    startup(ctx)
    repl(ctx)
    modes(ctx)
    signals(ctx)
    control_ctor(ctx)
    subscribers(ctx)


def own(ctx, f, keep=()):
    """graph with the plugin interface, the state queue and the other sequences kept as calls"""
    return ctx.graph(f, inline=lambda fn: fn.clsq not in (PL, PS, SQ, DEV, PO) and not (fn.clsq == CT and fn.name in SEQ) and not fn.name.startswith('Print') and not fn.q.startswith('fair::mq::tools::'))


def enum_of(g, t, e):
    """the enumerator of e a term is, by name"""
    t = peel(strip(g.resolve(t)))
    while t[0] in ('ctor', 'init') and len(t[2 if t[0] == 'ctor' else 1]) == 1:
        t = peel((t[2] if t[0] == 'ctor' else t[1])[0])
    return short(t[1]) if t[0] == 'enum' and t[1].startswith(e + '::') else None


def known(ctx, g, t, e, fs):
    """like enum_of, but also a variable whose value is known on this path"""
    x = enum_of(g, t, e)
    if x is None:
        d = dict(fs)
        names = {y['v']: y['n'] for y in enum_vals(ctx, e)['c']}
        for y in (strip(t), peel(strip(t)), g.resolve(strip(t))):
            v = d.get(y)
            if isinstance(v, tuple) and v[0] == '=' and v[1] in names:
                return names[v[1]]
    return x


def pathwise(f):
    f.with_facts = True
    return f


def calls(n, q):
    return n.kind == 'call' and n.d['q'] == q


def queue_call(n, name):
    return n.kind == 'call' and n.d['q'] == SQ + '::' + name and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == CT + '::fStateQueue'


def toward_exit():
    """state -> number of transitions to Exiting"""
    dist = {'Exiting': 0}
    while True:
        new = {s: dist[t] + 1 for s, e, t in TABLE if t in dist and s not in dist}
        if not new:
            return dist
        dist.update(new)


def state_reads(g):
    """nodes that read the device's state: from the device or from the queue"""
    out = {}
    for n in g.nodes:
        if n.id in g.live and n.kind in ('decl', 'write'):
            t = n.d.get('rhs') if n.d.get('rhs') is not None else n.d.get('term')
            v = n.d.get('var') or n.d.get('lhs')
            if t is None or v is None:
                continue
            t = peel(strip(t))
            if t[0] == 'call' and t[1] in (PL + '::GetCurrentDeviceState', SQ + '::WaitForNext', SQ + '::WaitForNextOrCustom'):
                out[n.id] = v
    return out


def shutdown(ctx):
    r = 'shutdown'
    dist = toward_exit()
    vals = {x['n']: x['v'] for x in enum_vals(ctx, STATE)['c']}
    auto = {s for s, e, t in TABLE if e == 'Auto'}
    for f in ctx.fns(CT + '::RunShutdownSequence'):
        g = own(ctx, f)
        F = Facts(g)
        W = [n for n in g.nodes if n.id in g.live and (queue_call(n, 'WaitForNext'))]
        cond = set()
        for n in g.nodes:
            if n.id in g.live and n.kind in ('branch', 'switch'):
                for s in sub(n.d['cond']):
                    if s[0] == 'var' and g.vinfo.get(s[1], {}).get('kind') != 'parm' and any(peel(y)[0] == 'call' and peel(y)[1] in (SQ + '::WaitForNext', PL + '::GetCurrentDeviceState') for y in srcs(g, s)):
                        cond.add(s)
        direct = {s for n in g.nodes if n.id in g.live and n.kind in ('branch', 'switch') for s in sub(g.resolve(n.d['cond'])) if s[0] == 'call' and s[1] == PL + '::GetCurrentDeviceState'}

        def cl(n, fs):
            if calls(n, PL + '::ChangeDeviceState'):
                t = known(ctx, g, n.d['args'][0], TRANS, fs)
                return '<' + t + '>' if t else '?'
            if n in W:
                return 'W'
            if queue_call(n, 'Clear'):
                return 'C'
            if resolved_is_write(g, n, HAS, 1):
                return 'H'
            if calls(n, PL + '::ReleaseDeviceControl'):
                return 'R'
            return None
        for name in sorted(vals):
            if name not in {x for s, e, t in TABLE for x in (s, t)} or name == 'Ok':
                continue
            v = vals[name]

            def inj(n, fs, v=v):
                d = dict(fs)
                for t in cond | direct:
                    d[t] = ('=', v)
                return frozenset(d.items())
            nxt = [e for s, e, t in TABLE if s == name and t in dist and dist[t] < dist.get(name, 99) and e != 'Auto']
            ini = frozenset((t, ('=', v)) for t in cond | direct)
            if name in ('Exiting', 'Error'):
                rx, what = 'C?HRz', 'the sequence ends there: marked as shut down, control released'
            elif name in auto or not nxt:
                rx, what = 'C?W*', 'left alone, it moves on by itself'
            else:
                rx, what = 'C?((%s)W)*' % '|'.join(chr(0x100 + i) for i, _ in enumerate(nxt)), '%s is requested, which leads towards Exiting' % ' or '.join(nxt)

            @pathwise
            def cl1(n, fs, nxt=nxt):
                c = cl(n, fs)
                if c and c[0] == '<':
                    e = c[1:-1]
                    return chr(0x100 + nxt.index(e)) if e in nxt else '?'
                return c
            lang(ctx, r, '%s: %s' % (name, what), g, cl1, rx, inject=inj, init_facts=ini, endsym={'exit': 'z'}, need=name in ('Exiting', 'Error'), legend='C queue cleared, W next state awaited, ? a transition that does not, H marked as shut down, R control released')
        # nothing that happens in between is lost: the state is read after the queue is emptied
        rd = {i for i in state_reads(g)}

        def cl2(n):
            if queue_call(n, 'Clear'):
                return 'C'
            if n in W:
                return 'W'
            if n.kind == 'call' and n.d['q'] == PL + '::GetCurrentDeviceState':
                return 'G'
            return None
        lang(ctx, r, 'no state change is lost: the queue is emptied before the state is read', g, cl2, 'G*C?G+W*z', endsym={'exit': 'z'}, legend='G state read, C queue emptied, W next state awaited')
        # the state acted on is the last one known
        for n in W:
            ctx.ob(r, 'the awaited state is the next one to act on', any(n.id == y[4] for i in rd for y in [peel(strip(g.nodes[i].d.get('rhs') if g.nodes[i].d.get('rhs') is not None else g.nodes[i].d['term']))] if y[0] == 'call' and len(y) > 4) or n.id in {s[4] for t in cond for s in map(peel, srcs(g, t)) if s[0] == 'call' and len(s) > 4}, where(n), 'the state taken from the queue is dropped')


START = [('InitDevice', ['InitializingDevice']), ('CompleteInit', ['Initialized']), ('Bind', ['Binding', 'Bound']), ('Connect', ['Connecting', 'DeviceReady']), ('InitTask', ['InitializingTask', 'Ready']), ('Run', ['Running'])]


def flag_edge(F, n, lab, q, yes, no):
    c = cond_field(F, n, lab, q)
    return None if c is None else yes if c else no


def reads_flag(ctx, g, t, q):
    """the callable tells whether the flag is set"""
    lf = lam_fn(ctx, g, t)
    return lf is not None and set(lam_results(ctx, lf, q, True)) == {True}


def sets_flag(ctx, g, t, q):
    """the callable sets the flag, whatever happens"""
    lf = lam_fn(ctx, g, t)
    if lf is None:
        return False
    h = ctx.graph(lf)
    return min(count_on_paths(h, lambda n: is_write(n, q, 1) or resolved_is_write(h, n, q, 1)) or {0}) >= 1


def startup(ctx):
    r = 'startup'
    for f in ctx.fns(CT + '::RunStartupSequence'):
        g = own(ctx, f)
        F = Facts(g)
        sym = {}
        rx = ''
        for i, (t, sts) in enumerate(START):
            sym[t] = chr(0x100 + i)
            for s in sts:
                sym[s] = chr(0x200 + len(sym))
        # build from the end: after each final wait the shutdown request is looked at before anything else is requested
        last = True
        for t, sts in reversed(START):
            fin = sym[sts[-1]] + ('(s z|n? z)' if last else '(s z|n (%s))' % rx)
            if len(sts) > 1:
                fin = '(%s|%s(s z|n? %s))' % (fin, sym[sts[0]], fin)
            rx = sym[t] + fin
            last = False

        @pathwise
        def cl(n, fs):
            if calls(n, PL + '::ChangeDeviceState'):
                return sym.get(known(ctx, g, n.d['args'][0], TRANS, fs), '?')
            if n.kind == 'call' and n.d['q'].startswith(SQ + '::WaitFor'):
                nm = short(n.d['q'])
                if nm != 'WaitForStateOrCustom' or not reads_flag(ctx, g, n.d['args'][1], SHUT):
                    return '?'
                return sym.get(known(ctx, g, n.d['args'][0], STATE, fs), '?')
            return None
        lang(ctx, r, 'the startup sequence leads from Idle to Running, step by step, and stops at a shutdown request', g, cl, rx, edge=lambda n, m, lab: flag_edge(F, n, lab, SHUT, 's', 'n'), endsym={'exit': 'z'},
             legend='/'.join('%s %s' % (v, k) for k, v in sym.items()) + ', s/n shutdown requested or not, ? a wait that does not end at a shutdown request, or an unknown transition')


KEYS = {'i': ['InitDevice', 'CompleteInit'], 'b': ['Bind'], 'x': ['Connect'], 'j': ['InitTask'], 'r': ['Run'], 's': ['Stop'], 't': ['ResetTask'], 'd': ['ResetDevice'], 'q': [],
        'k': 'CycleLogConsoleSeverityUp', 'l': 'CycleLogConsoleSeverityDown', 'n': 'CycleLogVerbosityUp', 'm': 'CycleLogVerbosityDown', 'c': [], 'h': [], 'p': [], 'Z': []}


def repl(ctx):
    r = 'keys'
    for f in ctx.fns(CT + '::RunREPL'):
        g = own(ctx, f)
        F = Facts(g)
        rd = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and (short(n.d['q']) in ('operator>>', 'get', 'getchar', 'read', 'getc')) and not (n.d['cls'] or '').startswith('std::atomic')]
        inv = set()
        for n in rd:
            for a in n.d['args']:
                a = strip(a)
                if a[0] == 'addr' or a[0] == 'op' and a[1] == '&':
                    a = strip(a[-1])
                if a[0] == 'var' and g.vinfo.get(a[1], {}).get('kind') != 'parm':
                    inv.add(a)
        inv = {v for v in inv if any(n.id in g.live and n.kind in ('switch', 'branch') and v in sub(n.d['cond']) for n in g.nodes)}
        if not rd or not inv:
            ctx.bad(r, 'keys are read', f.loc(), 'no input is read')
            continue

        def ed(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                k = peel(strip(g.resolve(key)))
                if k[0] == 'call' and k[1] == PL + '::ChangeDeviceState':
                    return 'Y' if lab == pol else 'N'
            return None
        for key, want in sorted(KEYS.items()):
            logc = {'CycleLogConsoleSeverityUp': 'U', 'CycleLogConsoleSeverityDown': 'D', 'CycleLogVerbosityUp': 'V', 'CycleLogVerbosityDown': 'W'}

            @pathwise
            def cl(n, fs, want=want):
                if n in rd:
                    return 'r'
                if calls(n, PL + '::ChangeDeviceState'):
                    t = known(ctx, g, n.d['args'][0], TRANS, fs)
                    return '0' if want and want[0] == t else '1' if len(want) == 2 and want[1] == t else '?'
                if n.kind == 'call' and n.d['q'] == SQ + '::WaitForState':
                    return 'w' if enum_of(g, n.d['args'][0], STATE) == 'InitializingDevice' else '?'
                if n.kind == 'call' and n.d['cls'] == PL and short(n.d['q']) in logc:
                    return logc[short(n.d['q'])]
                return None
            X = '0 (N | Y w 1 (Y|N)?)' if key == 'i' else '0 (Y|N)?' if want and not isinstance(want, str) else logc[want] if isinstance(want, str) else ''
            rx = 'r?z' if key == 'q' else '(r %s)* (r %s)? z' % (X, X) if X else 'r* z'
            v = ord(key)
            ids = {n.id for n in rd}

            def inj(n, fs, v=v, ids=ids):
                # the value is known from the read on; the write that models the read must not forget it
                d = dict(fs)
                if n.id in ids:
                    d[('x', 'read')] = True
                if ('x', 'read') in d:
                    for t in inv:
                        d[t] = ('=', v)
                return frozenset(d.items())
            lang(ctx, r, 'key %s: %s' % (key if key != 'Z' else 'other', ' then '.join(want) if isinstance(want, list) and want else want if want else 'ends the session' if key == 'q' else 'no transition'), g, cl, rx, edge=ed, inject=inj, endsym={'exit': 'z'},
                 legend='r key read, 0/1 first/second expected transition, Y/N accepted or not, w InitializingDevice awaited, ? other transition, U/D/V/W log severity up/down, verbosity up/down')
        # every turn looks at the error state and at the shutdown request
        po = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] in ('poll', 'select', 'ppoll', 'pselect', '::poll')]
        if not po:
            continue

        def cl2(n):
            if n in po:
                return 'p'
            if n.kind == 'throw':
                return 'T' if 'DeviceErrorState' in show(n.d['term']) else '?'
            return None

        def ed2(n, m, lab):
            x = flag_edge(F, n, lab, SHUT, 's', 'n')
            if x:
                return x
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                if key[:2] == ('op', '==') and any(enum_of(g, y, STATE) == 'Error' for y in key[2:4]) and any(peel(strip(g.resolve(y)))[:2] == ('call', PL + '::GetCurrentDeviceState') for y in key[2:4]):
                    return 'E' if lab == pol else 'k'
            return None
        B = '((n|k)* n (n|k)* k (n|k)* | (n|k)* k (n|k)* n (n|k)*)'
        lang(ctx, r, 'every turn ends at a shutdown request and fails in the error state', g, cl2, '(p %s)* (z | (p (n|k)*)? (s z | E T? t))|t|((p %s)* p? (n|k)* t)' % (B, B), ends=('exit', 'exc'), edge=ed2, endsym={'exit': 'z', 'exc': 't'},
             legend='p input awaited, s/n shutdown requested or not, E/k error state or not, T DeviceErrorState')


def modes(ctx):
    r = 'modes'
    for nm, mid in (('StaticMode', 'W'), ('InteractiveMode', 'I'), ('GUIMode', 'W')):
        for f in ctx.fns(CT + '::' + nm):
            g = own(ctx, f)
            F = Facts(g)

            def cl(n):
                if n.kind == 'call' and n.d['cls'] == CT:
                    return {'RunStartupSequence': 'S', 'RunREPL': 'I', 'RunShutdownSequence': 'D'}.get(short(n.d['q']))
                if n.kind == 'call' and n.d['q'] in (SQ + '::WaitForNextOrCustom', SQ + '::WaitForCustom'):
                    return 'W' if reads_flag(ctx, g, n.d['args'][-1], SHUT) else '?'
                if n.kind == 'call' and n.d['q'].startswith(SQ + '::WaitFor'):
                    return '?'
                if calls(n, PL + '::ReleaseDeviceControl'):
                    return 'R'
                if n.kind == 'catch':
                    return 'e' if 'DeviceErrorState' in n.d['t'] else 'c' if 'DeviceControlError' in n.d['t'] else 'a'
                return None
            end = '(c z|e R z|a R z|%s)'
            shut = '(s z|n D %s)' % (end % 'z')
            rx = 'S (n|s)* ' + end % ('W (c z|e R z|a R z|%s)' % shut) if mid == 'W' else 'S (c z|e R z|a R z|s (s z|n D %s)|n I (c z|e R z|a R z|%s))' % (end % 'z', shut)
            lang(ctx, r, '%s: startup, then until shutdown; the shutdown sequence unless the signal handler does it' % nm, g, cl, rx, edge=lambda n, m, lab: flag_edge(F, n, lab, SHUT, 's', 'n'), endsym={'exit': 'z'},
                 legend='S startup, I interactive session, W wait that ends at a shutdown request, s/n requested or not, D shutdown sequence, c/e/a lost control / error state / any exception caught, R control released')
            hs = {cl(n) for n in g.nodes if n.id in g.live and n.kind == 'catch'}
            ctx.ob(r, '%s survives losing control and the error state' % nm, {'e', 'c'} <= hs or 'a' in hs, f.loc(), 'an exception of the sequences leaves the thread: std::terminate')


def signals(ctx):
    r = 'signals'
    for f in ctx.fns(CT + '::SignalHandler'):
        g = own(ctx, f)
        F = Facts(g)
        ml = must_locks(g)
        TH = CT + '::fControllerThread'

        def cl(n):
            if queue_call(n, 'Notify'):
                return 'N' if sets_flag(ctx, g, n.d['args'][0], SHUT) else '?'
            if n.kind == 'call' and short(n.d['q']) == 'join' and obj_is(g, n, TH):
                return 'J'
            if calls(n, PL + '::StealDeviceControl'):
                return 'S'
            if n.kind == 'call' and n.d['q'] == CT + '::RunShutdownSequence':
                return 'D'
            if calls(n, PL + '::ReleaseDeviceControl'):
                return 'R'
            if n.kind == 'catch':
                return 'c' if 'DeviceControlError' in n.d['t'] else 'a'
            return None

        def ed(n, m, lab):
            x = flag_edge(F, n, lab, PSHUT, 'P', 'p') or flag_edge(F, n, lab, HAS, 'h', 'H')
            if x:
                return x
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                k = g.resolve(key)
                if peel(k)[0] == 'call' and short(peel(k)[1]) == 'joinable' and 'fControllerThread' in show(k):
                    return 'y' if lab == pol else 'x'
                if 'gSignalCount' in show(k):
                    zero = k[:2] == ('op', '==') and any(constval(y) == 0 for y in k[2:4]) or k[0] == 'op' and k[1] == '<=' and constval(k[3]) == 0
                    return ('g' if (lab == pol) == bool(zero) else 'G')
            return None
        tail = 'H S D (z | c z | a R z)'
        lang(ctx, r, 'at a signal: the controller thread is told and awaited, then the device shut down if it did not', g, cl, '(g|p)* (P+ (z | p N (y J|x) (h z|%s)) | G P* (z | p N (y J|x) (h z|%s)) | p G N (y J|x) (h z|%s))' % (tail, tail, tail), edge=ed, endsym={'exit': 'z'},
             legend='g/G no signal / signal, p/P plugin shutting down (no/yes), N shutdown requested through the state queue, y/x controller thread joinable or not, J joined, h/H device already shut down or not, S control stolen, D shutdown sequence, c/a lost control / other exception, R control released')
        D = [n for n in g.nodes if n.id in g.live and cl(n) == 'D']
        hs = {cl(n) for n in g.nodes if n.id in g.live and n.kind == 'catch'}
        ctx.ob(r, 'a failing shutdown sequence does not end the process', not D or 'a' in hs, f.loc(), 'no handler for other exceptions')
    n_j = 0
    for f in list(ctx.fns(CT + '::SignalHandler')) + list(ctx.fns(CT + '::~Control')):
        g = own(ctx, f)
        ml = must_locks(g)
        for n in g.nodes:
            if n.id in g.live and n.kind == 'call' and short(n.d['q']) in ('join', 'joinable') and obj_is(g, n, CT + '::fControllerThread'):
                n_j += 1
                ctx.ob(r, 'the controller thread is joined by one thread only: %s in %s' % (short(n.d['q']), short(f.q)), CT + '::fControllerMutex' in {l for l in ml.get(n.id, ())}, where(n), 'without fControllerMutex')
    # the C handlers count
    regs = {}
    for f in ctx.fns(CT + '::Control'):
        g = own(ctx, f)
        for n in g.nodes:
            if n.id in g.live and n.kind == 'call' and n.d['q'] in ('signal', 'std::signal'):
                regs[cval(g, n.d['args'][0])] = n, lam_fn(ctx, g, n.d['args'][1])
    for no, nm in ((2, 'SIGINT'), (15, 'SIGTERM')):
        n, hf = regs.get(no, (None, None))
        if not ctx.ob(r, '%s is handled' % nm, hf is not None and hf.body is not None, where(n) if n else '', 'no handler registered'):
            continue
        h = ctx.graph(hf)
        inc = [m for m in h.nodes if m.id in h.live and (m.kind == 'write' and 'gSignalCount' in show(m.d['lhs']) or m.kind == 'call' and short(m.d['q']) in ('operator++', 'fetch_add') and m.d.get('obj') is not None and 'gSignalCount' in show(m.d['obj']))]
        ctx.ob(r, 'the %s handler counts the signal' % nm, min(count_on_paths(h, lambda m: m in inc) or {0}) >= 1, hf.loc(), 'gSignalCount is not incremented on some path')


def control_ctor(ctx):
    r = 'start'
    thr = lambda n: n.kind == 'write' and fldq(strip(n.d['lhs'])) == CT + '::fControllerThread' and n.d.get('rhs') is not None and 'Mode' in show(n.d['rhs'])
    for f in ctx.fns(CT + '::Control'):
        g = own(ctx, f)
        F = Facts(g)
        keys = {}
        for n in g.nodes:
            if n.id in g.live and n.kind == 'branch':
                key, pol = F.key(n.d['cond'])
                if key[:2] == ('op', '==') and len(key) == 4:
                    for a, b in ((key[2], key[3]), (key[3], key[2])):
                        s = strv(g.resolve(b))
                        if s is not None and any(peel(y)[:2] == ('call', PL + '::GetProperty') and strv(peel(y)[3][0]) == 'control' for y in srcs(g, a)):
                            keys[key] = s

        def mode_of(n):
            s = show(n.d['rhs'])
            return 's' if 'StaticMode' in s else 'i' if 'InteractiveMode' in s else 'g' if 'GUIMode' in s else '?'

        def cl(n):
            if calls(n, PL + '::SubscribeToDeviceStateChange'):
                return 'U'
            if calls(n, PL + '::TakeDeviceControl'):
                return 'T'
            if thr(n):
                return mode_of(n)
            if n.kind == 'write' and fldq(strip(n.d['lhs'])) == CT + '::fSignalHandlerThread' and n.d.get('rhs') is not None and 'SignalHandler' in show(n.d['rhs']):
                return 'H'
            if n.kind == 'catch':
                return 'c'
            return None

        def ed(n, m, lab):
            return None
        for mode, w in (('static', 's'), ('gui', 'g'), ('dynamic', 'i'), ('external', 'i'), ('interactive', 'i'), ('none', None), ('anything else', 's')):
            ini = frozenset((k, s == mode) for k, s in keys.items())
            # an exception other than losing the race for control leaves the constructor; the signal handler is optional
            rx = 'U c? H? z' if w is None else 'U (T (c|%s)|c) H? z' % w

            def ed(n, m, lab, mode=mode):
                if n.kind == 'branch' and lab in (True, False):
                    key, pol = F.key(n.d['cond'])
                    if key in keys and ((keys[key] == mode) == pol) != lab:
                        return '-'
                return None
            lang(ctx, r, 'control=%s: %s' % (mode, 'no control taken, no thread' if w is None else 'control taken, then its mode started'), g, cl, '(%s)|.*-.*' % rx, edge=ed, endsym={'exit': 'z'},
                 legend='U states subscribed, T control taken, s/i/g static/interactive/gui thread, c another plugin has control, H signal thread, - branch of another mode')
        ctx.ob(r, 'losing the race for control is tolerated', any(n.id in g.live and n.kind == 'catch' and ('DeviceControlError' in n.d['t'] or '...' in n.d['t']) for n in g.nodes), f.loc(), 'DeviceControlError leaves the constructor')
        for n in g.nodes:
            if n.id in g.live and calls(n, PL + '::SubscribeToDeviceStateChange'):
                lf = lam_fn(ctx, g, n.d['args'][0])
                if not ctx.ob(r, 'states are followed by a callback', lf is not None and lf.body is not None, where(n), 'unknown callback'):
                    continue
                h = ctx.graph(lf, inline=lambda fn: fn.clsq not in (SQ, PL, PS) and not fn.q.startswith('fair::mq::tools'))
                HF = Facts(h)

                def cl3(m):
                    if is_write(m, PSHUT, 1) or resolved_is_write(h, m, PSHUT, 1):
                        return 'F'
                    if m.kind == 'call' and m.d['q'] == SQ + '::Push':
                        if parms_in(h, m.d['args'][0]) != {0}:
                            return '?'
                        return 'Q' if len(m.d['args']) == 1 else 'L' if sets_flag(ctx, h, m.d['args'][1], SHUT) else '?'
                    return None

                def ed3(m, k, lab):
                    if m.kind == 'branch' and lab in (True, False):
                        key, pol = HF.key(m.d['cond'])
                        if key[:2] == ('op', '==') and any(enum_of(h, y, STATE) == 'Error' for y in key[2:4]):
                            return 'e' if lab == pol else 'k'
                    return None
                lang(ctx, r, 'every state is queued; in the error state everything that waits is released', h, cl3, 'k Q | e (F L | L F)', edge=ed3, legend='e/k error state or not, F plugin shutdown flag set, Q state queued, L state queued with the device shutdown flag')


def strv(t):
    t = peel(strip(t))
    while t[0] == 'ctor' and t[2]:
        t = peel(strip(t[2][0]))
    return t[1] if t[0] == 's' else None


SUBPAIRS = (('SubscribeToDeviceStateChange', 'UnsubscribeFromDeviceStateChange'), ('SubscribeToPropertyChange', 'UnsubscribeFromPropertyChange'), ('SubscribeToPropertyChangeAsString', 'UnsubscribeFromPropertyChangeAsString'))


def subscribers(ctx):
    """a plugin that subscribes itself unsubscribes before it is gone"""
    r = 'unsubscribe'
    n_inst = 0
    for f in ctx.P.fns.values():
        if f.kind != 'ctor' or not f.body or not f.clsq.startswith('fair::mq::plugins::'):
            continue
        g = ctx.graph(f, inline=lambda fn: fn.clsq not in (PL, PS, SQ, DEV, PO))
        for sname, uname in SUBPAIRS:
            ss = [n for n in g.nodes if n.id in g.live and calls(n, PL + '::' + sname)]
            for n in ss:
                n_inst += 1
                ds = [d for d in ctx.P.fns.values() if d.kind == 'dtor' and d.clsq == f.clsq and d.body]
                ok = False
                for d in ds:
                    h = ctx.graph(d, inline=lambda fn: fn.clsq not in (PL, PS, SQ, DEV, PO))
                    ok |= min(count_on_paths(h, lambda m: calls(m, PL + '::' + uname) and m.d.get('ta') == n.d.get('ta')) or {0}) >= 1
                ctx.ob(r, '%s ends its %s in the destructor' % (short(f.clsq), sname), ok, where(n), 'the callback uses the plugin, but the destructor of %s does not call %s' % (f.clsq, uname))
    if not n_inst:
        ctx.broken('no subscribing plugin found')


# ------------------------------------------------------------------ C27
PM = 'fair::mq::PluginManager'
ORDER, FACT, PLUGS, POPT, SVC, PATHS = (PM + '::' + x for x in ('fPluginOrder', 'fPluginFactories', 'fPlugins', 'fPluginProgOptions', 'fPluginServices', 'fSearchPaths'))
MUNITS = ['fairmq/PluginManager.cxx', 'plugins/control/Control.cxx', 'plugins/config/Config.cxx', 'fairmq/PluginServices.cxx', 'fairmq/Plugin.cxx', 'fairmq/DeviceRunner.cxx', 'analyzer/inst_core.cpp']
LOADS = ('LoadPluginPrelinkedDynamic', 'LoadPluginDynamic', 'LoadPluginStatic')


@prop('C27', MUNITS)
def c27(ctx):
    """plugin loading, instantiation, lifetime and built-in configuration"""
    dispatch(ctx)
    loading(ctx)
    symbols(ctx)
    instantiate(ctx)
    iterate(ctx)
    search(ctx)
    lifetime(ctx)
    subscribers(ctx)
    config_plugin(ctx)


def mgr(ctx, f, *keep):
    ks = set(LOADS) | {'LoadSymbols', 'SearchPluginFile', 'Make_control_Plugin', 'Make_config_Plugin', 'ControlPluginProgramOptions', 'ConfigPluginProgramOptions', *keep}
    return ctx.graph(f, inline=lambda fn: not fn.q.startswith('fair::mq::tools::') and short(fn.q) not in ks)


def text_edges(g, F, alts):
    """branch key -> which of the texts it compares with (the comparison is true for that text)"""
    keys = {}
    for n in g.nodes:
        if n.id in g.live and n.kind == 'branch':
            key, pol = F.key(n.d['cond'])
            ts = {strv(s) for s in sub(key) if s[0] in ('s', 'ctor')} | {strv(s) for s in sub(g.resolve(key)) if s[0] in ('s', 'ctor')}
            ts = ts & set(alts)
            if len(ts) == 1 and key[0] == 'op' and key[1] == '==':
                keys[key] = next(iter(ts))
    return keys


def per_text(keys, F, which):
    """prune the branches that contradict 'the text is which'"""
    def ed(n, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            if key in keys and ((keys[key] == which) == pol) != lab:
                return '-'
        return None
    return ed


def dispatch(ctx):
    r = 'dispatch'
    for f in ctx.fns(PM + '::LoadPlugin'):
        g = mgr(ctx, f)
        F = Facts(g)
        keys = text_edges(g, F, ('p:', 'd:', 's:'))

        def cl(n):
            if n.kind == 'call' and n.d['q'] in [PM + '::' + x for x in LOADS]:
                a = strip(g.resolve(n.d['args'][0]))
                w = {'P': 'p', 'D': 'd', 'S': 's'}[short(n.d['q'])[len('LoadPlugin')]]
                if parms_in(g, a) != {0}:
                    return '?'
                for s in sub(a):
                    if s[0] == 'call' and short(s[1]) == 'substr':
                        return w if constval(s[3][0]) == 2 else '?'
                return w.upper()
            return None
        for k, rx in (('p:', 'p'), ('d:', 'd'), ('s:', 's'), ('no prefix', 'D')):
            e = per_text(keys, F, k)
            lang(ctx, r, 'LoadPlugin with %s' % k, g, cl, '%s|.*-.*' % rx, edge=lambda n, m, lab: e(n, lab), legend='p/d/s the prelinked/dynamic/static mechanism with the prefix cut off, P/D/S with the full name, - other prefix')


def loading(ctx):
    r = 'load'
    for nm in LOADS:
        for f in ctx.fns(PM + '::' + nm):
            g = mgr(ctx, f)
            F = Facts(g)
            keys = text_edges(g, F, ('control', 'config'))

            def popt(n):
                return n.kind == 'call' and short(n.d['q']) in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and n.d.get('obj') is not None and base_is(g, n.d['obj'], POPT)

            def cl(n):
                if n.kind == 'call' and n.d['q'] == PM + '::LoadSymbols':
                    if parms_in(g, n.d['args'][0]) != {0}:
                        return '?'
                    return 'L'
                if n.kind == 'call' and n.d['q'] == PM + '::SearchPluginFile':
                    return 'S' if parms_in(g, n.d['args'][0]) == {0} else '?'
                if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], ORDER):
                    if short(n.d['q']) in ('push_back', 'emplace_back'):
                        return 'O' if parms_in(g, n.d['args'][0]) == {0} else '?'
                    if short(n.d['q']) in ('insert', 'emplace', 'erase', 'clear', 'pop_back', 'resize', 'assign', 'swap', 'operator='):
                        return '?'
                if popt(n):
                    return 'I'
                if n.kind == 'throw':
                    return 'E' if 'PluginLoadError' in show(n.d['term']) else 'e'
                if n.kind == 'catch':
                    return 'b' if 'bad_optional_access' in n.d['t'] else 'c'
                return None

            def lk(n, lab):
                for q in (ORDER,) if nm == 'LoadPluginStatic' else (ORDER, FACT):
                    k = edge_lookup(F, g, n, lab, q)
                    if k:
                        return 'f' if k == 'present' else 'n'
                return None
            if nm == 'LoadPluginStatic':
                for w in ('control', 'config', 'any other'):
                    e = per_text(keys, F, w)
                    body = '(b|I b?)?' if w in ('control', 'config') else 'L'
                    done = '(c E? t|t|O (z|c E? t|t))'
                    rx = 'f z | t | n (c E? t|t|%s %s)' % (body, done) if w == 'any other' else 'f z|t|n (I? c E? t|I? t|%s %s)' % (body, done)
                    lang(ctx, r, '%s(%s): listed exactly once, when it is new' % (nm, w), g, cl, '(%s)|.*-.*' % rx, edge=lambda n, m, lab: e(n, lab) or lk(n, lab), ends=('exit', 'exc'), endsym={'exit': 'z', 'exc': 't'}, legend=LLEG)
                    for n in g.nodes:
                        if n.id in g.live and popt(n) and w in ('control', 'config'):
                            pass
                for n in g.nodes:
                    if n.id in g.live and popt(n):
                        src = {short(s[1]) for a in n.d['args'] for s in sub(g.resolve(a)) if s[0] == 'call' and short(s[1]).endswith('PluginProgramOptions')}
                        need = {w for k, w in keys.items() if edge_before(g, n, lambda kk, v, k=k: kk == k and v)}
                        ctx.ob(r, 'the options of a builtin plugin are its own', len(src) == 1 and len(need) == 1 and next(iter(src)).lower() == next(iter(need)) + 'pluginprogramoptions' and 0 in parms_in(g, n.d['args'][0]) , where(n), 'options of %s registered for %s' % (sorted(src), sorted(need)))
            elif nm == 'LoadPluginPrelinkedDynamic':
                lang(ctx, r, '%s: listed exactly once, when it is new' % nm, g, cl, 'f z|t|n (t|c E? t|L (c E? t|t|O (z|c E? t|t)))', edge=lambda n, m, lab: lk(n, lab), ends=('exit', 'exc'), endsym={'exit': 'z', 'exc': 't'}, legend=LLEG)
            else:
                lang(ctx, r, '%s: the search path first, then the system; listed exactly once, when it is new' % nm, g, cl, 'f z|t|n (t|S (t|c (c|L c|L O c)* (t|E t|L t|L O (z|t))|L (t|O (z|t))|L O? c (c|L c|L O c)* (t|E t|L t|L O (z|t))))', edge=lambda n, m, lab: lk(n, lab), ends=('exit', 'exc'), endsym={'exit': 'z', 'exc': 't'}, legend=LLEG)
                hs = {n.d['t'] for n in g.nodes if n.id in g.live and n.kind == 'catch'}
                ctx.ob(r, 'a plugin missing in the search path is looked for in the system', any('PluginNotFound' in t for t in hs) or '...' in hs or any('runtime_error' in t or t.endswith('std::exception &') for t in hs), f.loc(), 'PluginNotFound is not handled')


LLEG = 'f/n already loaded or not, S searched in the search path, L symbols loaded, I options registered, O name appended to the plugin order, b no options, c error caught, E PluginLoadError, z/t returns/throws, - other name'


def symbols(ctx):
    r = 'symbols'
    seen = set()
    for f in ctx.fns(PM + '::LoadSymbols'):
        if not f.body or (len(f.params), f.ta) in seen:
            continue
        seen.add((len(f.params), f.ta))
        g = ctx.graph(f, inline=lambda fn: not fn.q.startswith('fair::mq::tools::'))
        inst = 'LoadSymbols(%s)' % ', '.join(p['t'].replace('std::', '') for p in f.params[1:])

        def cl(n):
            if n.kind == 'call' and n.d.get('obj') is not None and short(n.d['q']) in ('push_back', 'emplace_back') and 'fgDLLKeepAlive' in show(n.d['obj']):
                return 'K'
            if n.kind == 'write' and any(s[0] == 'call' and short(s[1]) in ('operator[]', 'at') and s[2] is not None and rooted(g, s[2], FACT) and parms_in(g, s[3][0]) == {0} for s in [strip(n.d['lhs'])]) or n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], FACT) and short(n.d['q']) in ('insert_or_assign', 'emplace', 'insert', 'try_emplace'):
                ts = [s for s in sub(g.resolve(n.d.get('rhs') if n.kind == 'write' else ('x', tuple(n.d['args'])))) if s[0] == 'call' and short(s[1]) == 'ToString']
                ok = any([strv(a) for a in s[3]][::2] == ['make_', '_plugin'] and parms_in(g, s[3][1]) == {0} for s in ts)
                return 'F' if ok else '?'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], POPT) and short(n.d['q']) in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
                ys = {y for a in n.d['args'] for y in sub(g.resolve(a)) if y[0] == 'call'}
                ys |= {z for y in ys if not y[1] and g.nodes[y[4]].d.get('callee') is not None for z in sub(g.resolve(g.nodes[y[4]].d['callee'])) if z[0] == 'call'}
                ok = any(short(y[1]) == 'ToString' and [strv(a) for a in y[3]][::2] == ['get_', '_plugin_progoptions'] and parms_in(g, y[3][1]) == {0} for y in ys)
                return 'I' if ok and 0 in parms_in(g, n.d['args'][0]) else '?'
            if n.kind == 'catch':
                return 'b' if 'bad_optional_access' in n.d['t'] else 'c'
            return None
        lang(ctx, r, inst + ': the library stays loaded, its factory is kept under the plugin name, then its options', g, cl, 'K F (I|I? b|c)', edge=None, legend='K library kept open, F factory stored, I options registered, b no options')


def instantiate(ctx):
    r = 'instantiate'
    for f in ctx.fns(PM + '::InstantiatePlugin'):
        g = mgr(ctx, f)
        F = Facts(g)
        keys = text_edges(g, F, ('control', 'config'))
        made = {}

        def what(y):
            if y[0] != 'call':
                return None
            svc = lambda: any(fldq(z) == SVC for z in sub(g.resolve(y[3][0]))) if y[3] else False
            if short(y[1]) in ('Make_control_Plugin', 'Make_config_Plugin'):
                return {'control': 'C', 'config': 'G'}[short(y[1])[5:-7]] if svc() else '?'
            if short(y[1]) == 'operator()' and y[2] is not None:
                o = g.resolve(y[2])
                if any(z[0] == 'call' and short(z[1]) in ('operator[]', 'at') and z[2] is not None and rooted(g, z[2], FACT) and parms_in(g, z[3][0]) == {0} for z in sub(o)) or base_is(g, y[2], FACT):
                    return 'O' if svc() else '?'
            return None

        def stored(t):
            ok = False
            for y in map(peel, srcs(g, t)):
                if any(what(z) in ('C', 'G', 'O') for z in sub(g.resolve(y)) if z[0] == 'call'):
                    ok = True
                elif not (y[0] == 'ctor' and not y[2] or y[0] in ('null', 'c', 'init')):
                    return False
            return ok

        def cl(n):
            if n.kind == 'write':
                l = strip(n.d['lhs'])
                if l[0] == 'call' and short(l[1]) in ('operator[]', 'at') and l[2] is not None and rooted(g, l[2], PLUGS):
                    return 'S' if parms_in(g, l[3][0]) == {0} and stored(n.d['rhs']) else '?'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], PLUGS) and short(n.d['q']) in ('emplace', 'try_emplace', 'insert_or_assign', 'insert'):
                return 'S' if 0 in parms_in(g, n.d['args'][0]) and stored(n.d['args'][-1]) else '?'
            if n.kind == 'call':
                return what(n.d['term'])
            return None

        def lk(n, lab):
            k = edge_lookup(F, g, n, lab, PLUGS)
            return None if not k else 'f' if k == 'present' else 'n'
        for w, x in (('control', 'C'), ('config', 'G'), ('any other', 'O')):
            e = per_text(keys, F, w)
            lang(ctx, r, 'InstantiatePlugin(%s): made once, with the plugin services, under its own name' % w, g, cl, '(f|n %s S)|.*-.*' % x, edge=lambda n, m, lab: e(n, lab) or lk(n, lab), legend='f/n instantiated before or not, C/G/O the control/config plugin or the one of the factory made, S stored, - other name')
    for f in ctx.fns(PM + '::InstantiatePlugins'):
        g = mgr(ctx, f, 'InstantiatePlugin')
        cs = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == PM + '::InstantiatePlugin']
        each(ctx, r, 'every loaded plugin is instantiated, in the order of loading', g, cs, lambda t: rooted(g, t, ORDER), f.loc(), 'InstantiatePlugin(name)')
        th = [n for n in g.nodes if n.id in g.live and n.kind == 'catch']
        for n in th:
            miss = paths_missing(g, lambda m, n=n: m is n, lambda m: m.kind == 'throw')
            ctx.ob(r, 'a failing instantiation is reported', not miss, where(n), 'the exception is swallowed')


def iterate(ctx):
    r = 'visit'
    for nm, cont in (('ForEachPlugin', ORDER), ('ForEachPluginProgOptions', POPT)):
        for f in ctx.fns(PM + '::' + nm):
            g = mgr(ctx, f)
            cs = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and short(n.d['q']) == 'operator()' and n.d.get('obj') is not None and 0 in parms_in(g, n.d['obj'])]
            each(ctx, r, '%s visits all' % nm, g, cs, lambda t: rooted(g, t, cont), f.loc(), 'the function called')
            for n in cs:
                a = g.resolve(n.d['args'][0])
                if nm == 'ForEachPlugin':
                    ok = any(y[0] == 'call' and short(y[1]) in ('operator[]', 'at', 'find') and y[2] is not None and rooted(g, y[2], PLUGS) for y in sub(a))
                else:
                    ok = any(y[0] == 'fld' and short(y[2]) == 'second' for y in sub(a)) or any(y[0] == 'call' and 'get' == short(y[1]) for y in sub(a))
                ctx.ob(r, '%s hands over the element' % nm, ok, where(n), 'called with %s' % show(a))
    for f in ctx.fns(PM + '::LoadPlugins'):
        g = mgr(ctx, f, 'LoadPlugin')
        cs = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == PM + '::LoadPlugin']
        each(ctx, r, 'LoadPlugins loads all, in order', g, cs, lambda t: t[0] == 'var' and g.vinfo.get(t[1], {}).get('idx') == 0, f.loc(), 'LoadPlugin(name)')
    for f in ctx.fns(PM + '::WaitForPluginsToReleaseDeviceControl'):
        g = ctx.graph(f, inline=lambda fn: fn.clsq != PS)
        ctx.ob(r, 'the wait for the release is the one of the plugin services', set(count_on_paths(g, lambda n: n.kind == 'call' and n.d['q'] == PS + '::WaitForReleaseDeviceControl')) == {1}, f.loc(), 'not called exactly once')


def search(ctx):
    r = 'paths'
    V = 'ValidateSearchPath'
    for f in ctx.fns(PM + '::' + V):
        g = mgr(ctx, f)
        F = Facts(g)

        def ed(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                k = peel(strip(g.resolve(key)))
                t = lab == pol
                if k[0] == 'call':
                    s = short(k[1])
                    if s == 'empty':
                        return 'e' if t else 'n'
                    if s == 'exists':
                        return 'x' if t else 'a'
                    if s == 'is_directory':
                        return 'd' if t else 'o'
            return None
        lang(ctx, r, 'a search path must be named, and a directory if it exists', g, lambda n: ('E' if 'BadSearchPath' in show(n.d['term']) else '?') if n.kind == 'throw' else None, 'e E? t|n (t|a (z|t|(d|o) z)|x (t|d z|o E? t)|d z|o (a z|x E? t))', edge=ed, ends=('exit', 'exc'), endsym={'exit': 'z', 'exc': 't'}, legend='e/n empty or not, x/a exists or not, d/o directory or not, E BadSearchPath')
    for nm, what in (('AppendSearchPath', 'A'), ('PrependSearchPath', 'P'), ('SetSearchPaths', 'S')):
        for f in ctx.fns(PM + '::' + nm):
            g = mgr(ctx, f, V)

            def cl(n):
                if n.kind == 'call' and n.d['q'] == PM + '::' + V:
                    return 'V'
                if n.kind == 'call' and n.d['q'] in ('std::for_each', 'std::ranges::for_each') and any(s[0] == 'fn' and s[2] == PM + '::' + V for a in n.d['args'] for s in sub(g.resolve(a))):
                    rng = [g.resolve(a) for a in n.d['args'][:2]]
                    ok = all(s[0] == 'call' and short(s[1]) in (('begin', 'cbegin') if i == 0 else ('end', 'cend')) for i, s in enumerate(map(strip, rng)))
                    return 'V' if ok else '?'
                if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], PATHS):
                    s = short(n.d['q'])
                    if s in ('push_back', 'emplace_back'):
                        return 'A' if parms_in(g, n.d['args'][0]) == {0} else '?'
                    if s in ('insert', 'emplace'):
                        pos = g.resolve(n.d['args'][0])
                        b = any(y[0] == 'call' and short(y[1]) in ('begin', 'cbegin') for y in sub(pos)) and not any(y[0] == 'op' and y[1] == '+' for y in sub(pos))
                        en = any(y[0] == 'call' and short(y[1]) in ('end', 'cend') for y in sub(pos))
                        return '?' if parms_in(g, n.d['args'][1]) != {0} else 'P' if b else 'A' if en else '?'
                    if s in ('operator=', 'assign'):
                        return None if s == 'operator=' else '?'
                if n.kind == 'write' and fldq(strip(n.d['lhs'])) == PATHS:
                    return 'S' if parms_in(g, n.d['rhs']) == {0} else '?'
                return None
            vs = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == PM + '::' + V]
            loop = what == 'S' and bool(vs)
            if loop:
                each(ctx, r, '%s: every path is validated' % nm, g, vs, lambda t: parms_in(g, t) == {0}, f.loc(), V)
            lang(ctx, r, '%s: validated first, then stored' % nm, g, cl, '%s %s' % ('V*' if loop else 'V+', what), legend='V validated, S/A/P set, appended, prepended')
    for f in ctx.fns(PM + '::SearchPluginFile'):
        g = mgr(ctx, f)
        F = Facts(g)

        def ed2(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                k = peel(strip(g.resolve(key)))
                if k[0] == 'call' and short(k[1]) in ('exists', 'is_regular_file'):
                    return 'x' if lab == pol else 'a'
            return None

        def cl2(n):
            if n.kind == 'throw':
                return 'E' if 'PluginNotFound' in show(n.d['term']) else '?'
            return None
        lang(ctx, r, 'SearchPluginFile gives an existing file or throws PluginNotFound', g, cl2, 'a*(x z|E? t)|a* x t', edge=ed2, ends=('exit', 'exc'), endsym={'exit': 'z', 'exc': 't'}, legend='x/a candidate exists or not, E PluginNotFound')
        ex = [n for n in g.nodes if n.id in g.live and n.kind == 'branch' and any(ed2(n, None, l) for l in (True, False))]
        outer = [b for n in ex for h, b in loops_around(g, n)]
        brs = [x for x in g.nodes if x.id in g.live and x.kind == 'branch' and whole_range(g, x, lambda t: rooted(g, t, PATHS))]
        ctx.ob(r, 'all search paths are searched', any(x.id in b for x in brs for b in outer), f.loc(), 'no loop over all of fSearchPaths around the test for the file')
        first = all(len([1 for h, b in natural_loops(g) if x.id in b]) == 1 for x in brs if any(x.id in b for b in outer))
        ctx.ob(r, 'the directories are searched one after the other', bool(brs) and first, f.loc(), 'the loop over fSearchPaths is inside another loop: a later directory may win over an earlier one')
        for n in ret_values(g):
            c = [s for x in ex for s in sub(g.resolve(x.d['cond'])) if s[0] == 'call' and short(s[1]) == 'exists']
            ok = any(set(srcs(g, rv(n))) & set(srcs(g, s[3][0])) or g.resolve(rv(n)) == g.resolve(s[3][0]) for s in c)
            ctx.ob(r, 'the file found is the one returned', ok, where(n), 'returned: %s' % show(g.resolve(rv(n))))
    # command line
    for f in ctx.fns(PM + '::PluginManager'):
        if len(f.params) != 1 or not f.body:
            continue
        g = mgr(ctx, f, 'SetSearchPaths', 'AppendSearchPath', 'PrependSearchPath', 'LoadPlugins', 'LoadPlugin')
        F = Facts(g)
        keys = text_edges(g, F, ('<', '>'))
        use = {}
        for n in g.nodes:
            if n.id in g.live and n.kind == 'call' and n.d['q'] in (PM + '::SetSearchPaths', PM + '::AppendSearchPath', PM + '::PrependSearchPath'):
                use.setdefault(short(n.d['q']), []).append(n)
        vecs = {}
        for nm, ns in use.items():
            for n in ns:
                for s in g.sources(n.d['args'][0]) | set(sub(g.resolve(n.d['args'][0]))) if isinstance(g.sources(n.d['args'][0]), set) else set(g.sources(n.d['args'][0])) | set(sub(g.resolve(n.d['args'][0]))):
                    if s[0] == 'var' and 'vector' in str(g.vinfo.get(s[1], {}).get('t', '')):
                        vecs[s[1]] = nm

        def cl(n):
            if n.kind == 'call' and short(n.d['q']) in ('emplace_back', 'push_back') and n.d.get('obj') is not None:
                o = strip(n.d['obj'])
                nm = vecs.get(o[1]) if o[0] == 'var' else None
                if nm:
                    cut = any(s[0] == 'call' and short(s[1]) == 'substr' and constval(s[3][0]) == 1 for s in sub(g.resolve(n.d['args'][0])))
                    c = {'SetSearchPaths': 's', 'AppendSearchPath': 'a', 'PrependSearchPath': 'p'}[nm]
                    return c if cut == (c != 's') else '?'
            if n.kind == 'call' and n.d['q'] in (PM + '::SetSearchPaths', PM + '::AppendSearchPath', PM + '::PrependSearchPath', PM + '::LoadPlugins', PM + '::LoadPlugin'):
                return {'SetSearchPaths': 'S', 'AppendSearchPath': 'A', 'PrependSearchPath': 'P', 'LoadPlugins': 'L', 'LoadPlugin': 'L'}[short(n.d['q'])]
            return None
        for w, c in (('<', 'p'), ('>', 'a'), ('no prefix', 's')):
            e = per_text(keys, F, w)
            lang(ctx, r, 'option: a search path with %s' % (w if c != 's' else w), g, cl, '(%s* S [PA]* L*)|.*-.*' % c, edge=lambda n, m, lab: e(n, lab), legend='s/a/p path collected for setting, appending, prepending; S/A/P search paths set, appended, prepended; L plugins loaded')
        for nm in ('AppendSearchPath', 'PrependSearchPath'):
            ns = use.get(nm, [])
            ok = ns and all(any(whole_range(g, b, lambda t: t[0] == 'var' and vecs.get(t[1]) == nm) for b, st in loop_exits(g, n)) for n in ns)
            ctx.ob(r, 'option: all collected paths go to %s' % nm, bool(ok), f.loc(), 'not a loop over all collected paths')


def lifetime(ctx):
    r = 'lifetime'
    for cls, order in ((PM, [('fPluginServices', 'fPlugins'), ('fPluginFactories', 'fPlugins')]), ('fair::mq::DeviceRunner', [('fConfig', 'fPluginManager'), ('fDevice', 'fPluginManager')])):
        c = ctx.cls(cls)
        names = [x['n'] for x in c['fields'] if not x.get('static')]
        for a, b in order:
            ok = a in names and b in names and names.index(a) < names.index(b)
            ctx.ob(r, '%s: %s outlives %s' % (short(cls), a, b), ok, '%s:%s' % (c['file'].replace('/repo/', ''), c['line']), 'members are destroyed in reverse order of declaration: %s' % names)
    v = [x for x in ctx.P.vars.values() if x['q'] == PM + '::fgDLLKeepAlive'] if hasattr(ctx.P, 'vars') else []
    ctx.ob(r, 'plugin libraries stay loaded for the whole process', bool(v), '', 'fgDLLKeepAlive is not a static member')


def config_plugin(ctx):
    r = 'config'
    CF = 'fair::mq::plugins::Config'
    n_inst = 0
    for f in ctx.fns(CF + '::Config'):
        g = ctx.graph(f, inline=lambda fn: fn.clsq not in (PL, PS))
        for n in g.nodes:
            if not (n.id in g.live and calls(n, PL + '::SubscribeToDeviceStateChange')):
                continue
            lf = lam_fn(ctx, g, n.d['args'][0])
            if lf is None or not lf.body:
                continue
            n_inst += 1
            h = ctx.graph(lf, inline=lambda fn: fn.clsq not in (PL, PS) and short(fn.q) not in ('JSONParser', 'SuboptParser'))
            HF = Facts(h)

            def prop_of(t, name):
                t = peel(strip(h.resolve(t)))
                return strv(t[3][0]) if t[0] == 'call' and t[1] == PL + '::' + name and t[3] else None

            def ed(m, k, lab):
                if m.kind == 'branch' and lab in (True, False):
                    key, pol = HF.key(m.d['cond'])
                    t = lab == pol
                    if key[:2] == ('op', '==') and any(enum_of(h, y, STATE) == 'InitializingDevice' for y in key[2:4]):
                        return 's' if t else 'o'
                    p = prop_of(key, 'PropertyExists')
                    if p in ('config-key', 'id', 'mq-config', 'channel-config'):
                        c = {'config-key': 'k', 'id': 'i', 'mq-config': 'm', 'channel-config': 'c'}[p]
                        return c.upper() if t else c
                    kk = peel(strip(h.resolve(key)))
                    if kk[0] == 'call' and short(kk[1]) == 'empty':
                        return 'e' if t else 'n'
                return None
            idv = set()

            def cl(m):
                if m.kind == 'call' and m.d['q'] == PL + '::GetProperty' and m.d['args']:
                    p = strv(h.resolve(m.d['args'][0]))
                    return {'config-key': '1', 'id': '2'}.get(p)
                if m.kind == 'call' and m.d['q'] in (PL + '::SetProperties', PL + '::UpdateProperties'):
                    for s in sub(h.resolve(m.d['args'][0])):
                        if s[0] == 'call' and short(s[1]) in ('JSONParser', 'SuboptParser'):
                            p = prop_of(s[3][0], 'GetProperty')
                            ids = {prop_of(y, 'GetProperty') for y in srcs(h, s[3][1])} - {None}
                            if ids != {'config-key', 'id'}:
                                return '?'
                            return 'J' if short(s[1]) == 'JSONParser' and p == 'mq-config' else 'C' if short(s[1]) == 'SuboptParser' and p == 'channel-config' else '?'
                    return '?'
                if m.kind == 'catch':
                    return 'x'
                return None
            lang(ctx, r, 'the channel configuration is taken over when the device is initialised', h, cl, 'o | s (K 1|k (I 2|i)) (e|n (x|M (x|J x?)|m (x|C (x|C x?)|c x?)))', edge=ed,
                 legend='s/o InitializingDevice or another state, K/k config-key given or not, I/i id given or not, 1/2 taken as the id, e/n id empty or not, M/m mq-config given or not, C/c channel-config given or not, J JSON applied, C (second) channel options applied, x parser error reported')
            ctx.ob(r, 'a parser error does not leave the callback', any(m.id in h.live and m.kind == 'catch' and ('std::exception' in m.d['t'] or m.d['t'] == '...') for m in h.nodes), lf.loc(), 'no handler')
    if not n_inst:
        ctx.broken('config plugin callback not found')


# ------------------------------------------------------------------ C37
DR = 'fair::mq::DeviceRunner'
RUNITS = ['fairmq/DeviceRunner.cxx', 'analyzer/inst_core.cpp', 'analyzer/inst_devices.cpp']
HOOKS = ('LoadPlugins', 'SetCustomCmdLineOptions', 'ModifyRawCmdLineArgs', 'InstantiateDevice')


@prop('C37', RUNITS)
def c37(ctx):
    """device runner"""
    runner(ctx)
    general_options(ctx)
    config_changes(ctx)
    hooks(ctx)
    topmost(ctx)


def count_of(g, t):
    t = peel(strip(g.resolve(t)))
    return strv(t[3][0]) if t[0] == 'call' and t[1] == PO + '::Count' and t[3] else None


def count_edge(g, F, n, lab):
    """(option name, given) of a branch on ProgOptions::Count"""
    if n.kind == 'branch' and lab in (True, False):
        key, pol = F.key(n.d['cond'])
        t = lab == pol
        c = count_of(g, key)
        if c:
            return c, t
        if key[0] == 'op' and len(key) == 4:
            a, b = key[2], key[3]
            if key[1] == '<' and constval(a) == 0 and count_of(g, b):
                return count_of(g, b), t
            if key[1] == '==':
                for x, y in ((a, b), (b, a)):
                    if count_of(g, x) and constval(y) in (0, 1):
                        return count_of(g, x), t == (constval(y) == 1)
    return None


def hook_of(n):
    for h in HOOKS:
        if 'hooks::' + h in (n.d.get('ta') or ''):
            return h
    return None


def runner(ctx):
    from itertools import permutations
    r = 'run'
    RAW, CFG, DEVF, PMF = (DR + '::' + x for x in ('fRawCmdLineArgs', 'fConfig', 'fDevice', 'fPluginManager'))
    for f in ctx.fns(DR + '::Run'):
        g = ctx.graph(f, inline=lambda fn: fn.clsq not in (PM, PO, DEV, 'fair::mq::EventManager', 'fair::mq::StateMachine') and short(fn.q) not in ('HandleGeneralOptions', 'SubscribeForConfigChange', 'UnsubscribeFromConfigChange'))
        F = Facts(g)

        def onfld(n, q):
            return n.d.get('obj') is not None and any(fldq(peel(y)) == q for y in sub(g.resolve(n.d['obj'])))

        def isfld(t, q):
            return any(fldq(peel(s)) == q for s in sub(g.resolve(t)))

        def cl(n):
            if n.kind == 'ret':
                c = cval(g, rv(n))
                return {0: '0', 1: '1'}.get(c, '?')
            if n.kind != 'call':
                return None
            q, a = n.d['q'], n.d['args']
            nm = short(q)
            if q == PM + '::LoadPlugin':
                return {'s:config': 'c', 's:control': 'b'}.get(strv(g.resolve(a[0])), '?')
            if nm == 'Emit':
                h = hook_of(n)
                return {'LoadPlugins': 'l', 'SetCustomCmdLineOptions': 's', 'ModifyRawCmdLineArgs': 'm', 'InstantiateDevice': 'i'}.get(h, '?')
            if q == PM + '::ForEachPluginProgOptions':
                lf = lam_fn(ctx, g, a[0])
                if lf is None:
                    return '?'
                h = ctx.graph(lf, inline=lambda fn: fn.clsq != PO)
                return 'f' if set(count_on_paths(h, lambda m: calls(m, PO + '::AddToCmdLineOptions') and parms_in(h, m.d['args'][0]) == {0})) == {1} else '?'
            if q == PO + '::AddToCmdLineOptions':
                return 'a' if any(s[0] == 'call' and s[1] == PM + '::ProgramOptions' for s in sub(g.resolve(a[0]))) else None
            if q == PO + '::ParseAll':
                return 'P' if isfld(a[0], RAW) else '?'
            if q == PO + '::Notify':
                return 'N'
            if q == DR + '::SubscribeForConfigChange':
                return 'U'
            if q == DR + '::UnsubscribeFromConfigChange':
                return 'u'
            if q == PM + '::EmplacePluginServices':
                return 'M' if isfld(a[0], CFG) and isfld(a[1], DEVF) else '?'
            if q == PM + '::InstantiatePlugins':
                return 'I'
            if q == PM + '::WaitForPluginsToReleaseDeviceControl':
                return 'W'
            if q == DEV + '::SetConfig':
                return 'C' if isfld(a[0], CFG) else '?'
            return {'RegisterChannelEndpoints': 'e', 'PrintRegisteredChannels': 'p', 'RunStateMachine': 'R', 'SetRawCmdLineArgs': 'r'}.get(nm) if n.d['cls'].startswith('fair::mq::') else None

        def cl2(n):
            if n.kind == 'call' and short(n.d['q']) in ('ChangeStateOrThrow', 'ChangeState'):
                return 'T' if enum_of(g, n.d['args'][0], TRANS) == 'End' else '?'
            return cl(n)

        def ed(n, m, lab):
            c = count_edge(g, F, n, lab)
            if c:
                return {'print-channels': 'Xx', 'version': 'Vv'}.get(c[0], '??')[0 if c[1] else 1] if c[0] in ('print-channels', 'version') else None
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                k = peel(strip(g.resolve(key)))
                if k[0] == 'call' and k[1] == DR + '::HandleGeneralOptions':
                    return 'H' if lab == pol else 'h'
                if fldq(k) == DEVF or k[0] == 'call' and k[2] is not None and fldq(peel(k[2])) == DEVF and short(k[1]) in ('operator bool', 'get'):
                    return 'D' if lab == pol else 'd'
            return None
        opts = '|'.join(''.join(p) for p in permutations('fasm') if p.index('s') < p.index('m'))
        rx = 'c l b (%s) P (h 0 z | H (NU|UN) i (d 1 z | D (re|er) (X p T 0 z | x (V T 0 z | v C M I R W u 0 z))))' % opts
        lang(ctx, r, 'Run goes through the documented steps in order', g, cl2, rx, edge=ed, endsym={'exit': 'z'},
             legend='c/b config/control plugin loaded, l/s/m/i hooks LoadPlugins, SetCustomCmdLineOptions, ModifyRawCmdLineArgs, InstantiateDevice, f plugin options added, a plugin manager options added, P command line parsed, H/h general options say go on or stop, N notified, U/u subscribed to / unsubscribed from config changes, D/d device or none, '
                    'r command line given to the device, e endpoints registered, X/x print-channels or not, p channels printed, V/v version or not, T End requested, C device configured, M plugin services made, I plugins instantiated, R state machine run, W control released, 0/1 returned')
    for f in ctx.fns(DR + '::RunWithExceptionHandlers'):
        top(ctx, r, f, 'RunWithExceptionHandlers', lambda n: calls(n, DR + '::Run'))


def top(ctx, r, f, nm, isrun):
    g = ctx.graph(f, inline=lambda fn: fn.clsq != DR)
    R = [n for n in g.nodes if n.id in g.live and isrun(n)]
    if not ctx.ob(r, '%s runs the device once' % nm, bool(R), f.loc(), 'DeviceRunner::Run is not called'):
        return
    esc = [n for n in R for m, l in n.succ if g.exc_exit is not None and m is g.exc_exit]
    # the exception edge of the call leads to handlers; one of them takes everything
    hs = set()
    for n in R:
        todo, seen = [m for m, l in n.succ if l == 'exc' or isinstance(l, tuple) and l[0] == 'catch'], set()
        while todo:
            m = todo.pop()
            if m.id in seen:
                continue
            seen.add(m.id)
            if m.kind == 'catch':
                hs.add(m)
                continue
            if g.exc_exit is not None and m is g.exc_exit:
                esc.append(n)
                continue
            todo += [k for k, l in m.succ]
    ctx.ob(r, '%s lets no exception of the device escape' % nm, any(n.d['t'] == '...' for n in hs) and not [e for e in esc], where(R[0]), 'handlers: %s' % sorted(n.d['t'] for n in hs))
    rets = {'R': [], 'x': []}

    def cl(n):
        if n in R:
            return 'R'
        if n.kind == 'catch':
            return 'x'
        if n.kind == 'ret':
            t = rv(n)
            c = cval(g, t)
            if c is not None:
                return '0' if c == 0 else '1'
            return 'v' if all(peel(s)[0] == 'call' and peel(s)[1] == DR + '::Run' for s in srcs(g, t)) else '?'
        return None
    lang(ctx, r, '%s returns the result of the run, or failure after an exception' % nm, g, cl, 'R (v|x 1)|x 1', legend='R DeviceRunner::Run, x exception caught, v its result / 0 / 1 (non-zero) returned')


def general_options(ctx):
    r = 'general'
    for f in ctx.fns(DR + '::HandleGeneralOptions'):
        g = ctx.graph(f, inline=lambda fn: fn.clsq not in (PO, LOG))
        F = Facts(g)

        def val(t):
            """the option a value was taken from"""
            out = set()
            for s in srcs(g, t):
                s = peel(s)
                if s[0] == 'call' and short(s[1]) in ('GetProperty', 'GetPropertyAsString') and s[3]:
                    out.add(strv(s[3][0]))
                elif s[0] == 'call' and short(s[1]) in ('getenv', 'secure_getenv'):
                    out.add('$' + str(strv(s[3][0])))
                elif strv(s) is not None:
                    out.add("'%s'" % strv(s))
                elif s[0] == 'ctor' and s[2] and 'basic_string' in s[1] and all(x[0] == 'ctor' and 'allocator' in x[1] for x in s[2][1:]):
                    out |= val(s[2][0])
                else:
                    out.add('?')
            return out

        def cl(n):
            if n.kind == 'ret':
                c = cval(g, rv(n))
                return {0: '0', 1: '1'}.get(c, '?')
            if n.kind == 'call':
                nm = short(n.d['q'])
                if n.d['q'] == PO + '::PrintHelp':
                    return 'h'
                if n.d['q'] == PO + '::PrintOptionsRaw':
                    return 'o'
                if n.d['cls'] == LOG:
                    a = [val(x) for x in n.d['args']]
                    if nm == 'SetConsoleSeverity':
                        return 'q' if a[0] == {"'nolog'"} else 's' if a[0] <= {'severity', '$FAIRMQ_SEVERITY'} and 'severity' in a[0] else '?'
                    if nm == 'SetVerbosity':
                        return 'v' if a[0] == {'verbosity'} else '?'
                    if nm == 'InitFileSink':
                        return 'f' if a[0] == {'file-severity'} and a[1] == {'log-to-file'} else '?'
                    if nm == 'SetConsoleColor':
                        return 'k' if a[0] == {'color'} else '?'
            return None

        def ed(n, m, lab):
            c = count_edge(g, F, n, lab)
            if c:
                return {'help': 'H', 'print-options': 'O', 'print-channels': 'C', 'version': 'V'}.get(c[0], '?') if c[1] else {'help': 'i', 'print-options': 'j'}.get(c[0], 'n')
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                k = peel(strip(g.resolve(key)))
                if k[0] == 'call' and short(k[1]) == 'empty' and k[2] is not None:
                    v = val(k[2])
                    if v == {'log-to-file'}:
                        return 'e' if lab == pol else 'L'
                    if 'severity' in v:
                        return 'w' if lab == pol else 'S'
            return None
        lang(ctx, r, 'help and options are printed and end the run; otherwise logging is set up', g, cl, 'H j? h 0 | i? O i? o 0 | (i j|j i) ((n n? C|n? V|C) q 1 | n n (v? L v? (f q|q f) v? | v? e v? k? (k?) (S s|w) k?) v? 1)', once='HiOjLeSw', edge=ed,
             legend='H/i help or not, O/j print-options or not, C/V/n print-channels, version, neither; h/o printed, q console quiet, v verbosity set, L/e log file or none, f file sink opened, k colour set, S/w severity given or not, s console severity set, 0/1 returned')
        for what, c, grp in (('verbosity', 'v', None), ('colour', 'k', None)):
            ns = [n for n in g.nodes if n.id in g.live and cl(n) == c]
            ctx.ob(r, 'the %s option takes effect' % what, bool(ns), f.loc(), 'never set')


def config_changes(ctx):
    r = 'changes'
    want = {'severity': 's', 'file-severity': 'F', 'verbosity': 'v', 'log-to-file': 'f', 'color': 'k'}
    subs, unsubs = [], []
    for f in ctx.fns(DR + '::SubscribeForConfigChange'):
        g = ctx.graph(f, inline=lambda fn: fn.clsq != PO)
        for n in g.nodes:
            if not (n.id in g.live and calls(n, PO + '::Subscribe')):
                continue
            subs.append((n.d['ta'], strv(g.resolve(n.d['args'][0])), n))
            lf = lam_fn(ctx, g, n.d['args'][1])
            if not ctx.ob(r, 'a callback follows %s' % n.d['ta'], lf is not None and bool(lf.body), where(n), 'unknown callback'):
                continue
            h = ctx.graph(lf, inline=lambda fn: fn.clsq not in (PO, LOG))
            F = Facts(h)
            keys = text_edges(h, F, want)
            mine = ['color'] if 'bool' in n.d['ta'] else ['severity', 'file-severity', 'verbosity', 'log-to-file']

            def cl(m):
                if m.kind == 'call' and m.d['cls'] == LOG:
                    nm = short(m.d['q'])
                    val = parms_in(h, m.d['args'][1 if nm == 'InitFileSink' else 0]) == {1}
                    if nm == 'InitFileSink':
                        s = {strv(y[3][0]) for y in map(peel, srcs(h, m.d['args'][0])) if y[0] == 'call' and short(y[1]) == 'GetProperty'}
                        return 'f' if val and s == {'file-severity'} else '?'
                    return {'SetConsoleSeverity': 's', 'SetFileSeverity': 'F', 'SetVerbosity': 'v', 'SetConsoleColor': 'k'}.get(nm, '?') if val else '?'
                return None
            for w in mine + ['anything else']:
                e = per_text(keys, F, w)
                lang(ctx, r, 'a change of %s %s' % (w, 'takes effect at once' if w in want else 'changes no logging (%s)' % n.d['ta'].strip('<>')), h, cl, '(%s)|.*-.*' % want.get(w, ''), edge=lambda a, b, lab: e(a, lab), legend='s/F/v/f/k console severity, file severity, verbosity, file sink, colour set to the new value')
    for f in ctx.fns(DR + '::UnsubscribeFromConfigChange'):
        g = ctx.graph(f, inline=lambda fn: fn.clsq != PO)
        for n in g.nodes:
            if n.id in g.live and calls(n, PO + '::Unsubscribe'):
                unsubs.append((n.d['ta'], strv(g.resolve(n.d['args'][0]))))
                ctx.ob(r, 'unsubscribed on every path: %s' % n.d['ta'], min(count_on_paths(g, lambda m: m is n) or {0}) >= 1, where(n), 'not on every path')
    for ta, who, n in subs:
        ctx.ob(r, 'the subscription to %s is ended' % ta, (ta, who) in unsubs, where(n), 'subscribed as %s, unsubscribed: %s' % (who, unsubs))


def hooks(ctx):
    r = 'hooks'
    got = {}
    for nm, target in (('AddHook', 'Subscribe'), ('RemoveHook', 'Unsubscribe')):
        for f in ctx.fns(DR + '::' + nm):
            if not f.body:
                continue
            g = ctx.graph(f, inline=lambda fn: fn.clsq != 'fair::mq::EventManager')
            ts = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == 'fair::mq::EventManager::' + target]
            ok = set(count_on_paths(g, lambda n: n in ts)) == {1}
            for n in ts:
                h = next((x for x in HOOKS if 'hooks::' + x in (f.ta or '')), None)
                ok &= h is not None and 'hooks::' + h in n.d['ta']
                got.setdefault(nm, set()).add(strv(g.resolve(n.d['args'][0])))
                if nm == 'AddHook':
                    ok &= lam_calls_param(ctx, g, n.d['args'][1], 0)
            ctx.ob(r, '%s%s' % (nm, f.ta), ok, f.loc(), 'does not %s the hook exactly once' % target.lower())
    ctx.ob(r, 'hooks are removed under the name they were added with', got.get('AddHook') == got.get('RemoveHook') and len(got.get('AddHook', ())) == 1, '', 'names: %s' % got)


def topmost(ctx):
    r = 'main'
    for f in ctx.fns('main'):
        if not f.file.endswith('runDevice.h'):
            continue
        top(ctx, r, f, 'main', lambda n: calls(n, DR + '::Run') or calls(n, DR + '::RunWithExceptionHandlers'))
        g = ctx.graph(f, inline=lambda fn: fn.clsq != DR)
        R = [n for n in g.nodes if n.id in g.live and calls(n, DR + '::Run')]
        for h, callee in (('SetCustomCmdLineOptions', 'addCustomOptions'), ('InstantiateDevice', 'getDevice')):
            hs = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == DR + '::AddHook' and hook_of(n) == h]
            ok = bool(hs) and not passes_missing(g, R, hs)
            for n in hs:
                lf = lam_fn(ctx, g, n.d['args'][0])
                k = ctx.graph(lf) if lf is not None and lf.body else None
                ok &= k is not None and min(count_on_paths(k, lambda m: m.kind == 'call' and short(m.d['q']) == callee) or {0}) >= 1
                if k is not None and h == 'InstantiateDevice':
                    ok &= any(m.kind == 'write' and fldq(strip(m.d['lhs'])) == DR + '::fDevice' and any(s[0] == 'call' and short(s[1]) == 'getDevice' for s in sub(k.resolve(m.d['rhs']))) for m in k.nodes if m.id in k.live)
                if k is not None and h == 'SetCustomCmdLineOptions':
                    ok &= any(calls(m, PO + '::AddToCmdLineOptions') or m.kind == 'enter' and 'AddToCmdLineOptions' in str(m.d) for m in k.nodes if m.id in k.live) or any(m.kind == 'call' and short(m.d['q']) == 'AddToCmdLineOptions' for m in k.nodes)
            ctx.ob(r, 'main installs the hook %s before the run' % h, ok, f.loc(), '%s is not called by the hook, or the hook is not installed before Run' % callee)


def passes_missing(g, targets, needs):
    """targets reachable without passing one of needs"""
    ids = {n.id for n in needs}
    reached, _ = run(g, False, lambda n, s, fs: (s or n.id in ids,))
    return [t for t in targets if any(not s for _, s in reached.get(t.id, ()))]
