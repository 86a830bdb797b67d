"""C01-C05: the state machine."""
import re
from .core import prop, run, Facts, short, fmt_trace, show, sub
from .lib import *
from .prog import walk

M = 'fair::mq::fsm::Machine_'
SM = 'fair::mq::StateMachine'
F_STATE, F_NEW, F_RES, F_PEND = M + '::fState', M + '::fNewState', M + '::fLastTransitionResult', M + '::fNewStatePending'
MTX, SMTX, CV = M + '::fStateMtx', M + '::fSubscriptionsMtx', M + '::fNewStatePendingCV'
SIGS = {M + '::fStateChangeSignal': 'c', M + '::fStateHandleSignal': 'h', M + '::fStatePrepSignal': 'p', M + '::fNewTransitionSignal': 't'}
UNITS = ['fairmq/StateMachine.cxx', 'fairmq/States.cxx']

# the documented state machine (docs/Device.md and the state diagram)
SPEC = """Idle End Exiting
Idle InitDevice InitializingDevice
InitializingDevice CompleteInit Initialized
Initialized Bind Binding
Initialized ResetDevice ResettingDevice
Binding Auto Bound
Bound Connect Connecting
Bound ResetDevice ResettingDevice
Connecting Auto DeviceReady
DeviceReady InitTask InitializingTask
DeviceReady ResetDevice ResettingDevice
InitializingTask Auto Ready
Ready Run Running
Ready ResetTask ResettingTask
Running Stop Ready
ResettingTask Auto DeviceReady
ResettingDevice Auto Idle
Ok ErrorFound Error"""
SPEC = {tuple(l.split()) for l in SPEC.split('\n')}


def split_targs(s):
    """top-level template arguments of 'X<...>'"""
    i = s.index('<')
    out, depth, cur = [], 0, ''
    for c in s[i + 1:s.rindex('>')]:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def type_of(ctx, cls):
    """enumerator returned by <cls>::Type()"""
    for f in ctx.fns(cls + '::Type'):
        g = ctx.graph(f)
        vals = set()
        for n in ret_values(g):
            r = g.resolve(rv(n))
            vals.add(short(r[1]) if r[0] == 'enum' else show(r))
        if len(vals) == 1:
            return next(iter(vals)), f
    ctx.broken('Type() of %s not constant' % cls)


def is_sig_call(g, n):
    if n.kind == 'call' and n.d['cls'].startswith('boost::signals2::signal<') and short(n.d['q']) == 'operator()':
        return SIGS.get(fldq(g.resolve(n.d['obj'])))
    return None


def sig_empty_edge(F, g, n, lab):
    if n.kind == 'branch' and lab in (True, False):
        key, pol = F.key(n.d['cond'])
        if key[0] == 'call' and short(key[1]) == 'empty' and key[2] is not None:
            l = SIGS.get(fldq(key[2]))
            if l and (lab if pol else not lab):
                return l
        if key[0] == 'op' and key[1] in ('==', '<') and any(s[0] == 'call' and short(s[1]) == 'num_slots' for s in sub(key)):
            q = next(fldq(s[2]) for s in sub(key) if s[0] == 'call' and short(s[1]) == 'num_slots')
            v = lab if pol else not lab
            if (key[1] == '==') == v:
                return SIGS.get(q)
    return None


def process_events(g):
    return [n for n in g.nodes if n.id in g.live and n.kind == 'call' and short(n.d['q']) in ('process_event', 'process_event_internal', 'enqueue_event')]


def event_type(g, n):
    for s in g.sources(n.d['args'][0]):
        if s[0] in ('ctor', 'init') and '_E' in str(s[1]):
            return s[1].replace('const ', '')
    t = n.d.get('pt') or ['']
    return t[0].replace('const ', '').replace(' &', '').strip()


def change_state_fn(ctx):
    l = [f for f in ctx.fns(SM + '::ChangeState') if f.params and 'Transition' in f.params[0]['t']]
    if not l:
        ctx.broken('ChangeState(Transition) not found')
    return l[0]


@prop('C01', UNITS)
def c01(ctx):
    """transition table"""
    tt = ctx.cls(M + '::transition_table')
    base = next((b for b in tt['bases'] if 'mpl::vector' in b), None)
    if not base:
        ctx.broken('transition table is not an mpl::vector')
    rows = set()
    for a in split_targs(base):
        if '::Row<' not in a and not a.startswith('Row<'):
            continue
        r = split_targs(a)
        s, e, t = (type_of(ctx, x)[0] for x in r[:3])
        rows.add((s, e, t))
        name = '%s on %s' % (s, e)
        ctx.ob('row-unguarded', name, len(r) < 5 or r[4].endswith('none'), '%s:%s' % (tt['file'], tt['line']), 'row has a guard %s: the transition can be refused' % r[4:])
        ctx.ob('row-action', name, r[3].endswith('DefaultFct') or not r[3].endswith('none'), '%s:%s' % (tt['file'], tt['line']), 'row has no action: the new state is never published')
    loc = '%s:%s' % (tt['file'].replace('/repo/', ''), tt['line'])
    for s in sorted(SPEC | rows):
        ctx.ob('transition-table', '%s --%s--> %s' % s, s in rows and s in SPEC, loc, 'documented transition is missing' if s in SPEC else 'transition is not in the documented state machine')
    al = ctx.P.aliases.get(M + '::initial_state')
    if al:
        ini = {type_of(ctx, x)[0] for x in split_targs(al['t']) if 'na' != short(x)}
        ctx.ob('initial-state', 'the machine starts idle and healthy', ini == {'Idle', 'Ok'}, loc, 'initial states: %s' % sorted(ini))
    # terminal error state
    errs = [c for c in ctx.P.classes.values() if c['q'].startswith('fair::mq::fsm::') and ctx.has(c['q'] + '::Type') and any('terminate_state' in b for b in c['bases'])]
    ctx.ob('error-terminal', 'the error state accepts no further transition', [type_of(ctx, c['q'])[0] for c in errs] == ['Error'], loc, 'terminal states: %s' % [c['q'] for c in errs])

    # every requested transition is dispatched as itself
    f = change_state_fn(ctx)
    g = ctx.graph(f)
    tr = enum_vals(ctx, 'fair::mq::Transition')
    pe = process_events(g)
    if not pe:
        ctx.broken('no process_event call in ChangeState')
    F = Facts(g)
    for c in tr['c']:
        fs = pfact(g, 0, c['v'])
        inst = 'request %s' % c['n']

        def step(n, s, f_, c=c):
            dispatched, ret, exc = s
            if n.kind == 'catch':
                exc = True
            if n in pe:
                ty, _ = type_of(ctx, event_type(g, n))
                dispatched = (dispatched + (ty,))[:3]
            if n.kind == 'ret':
                v = g.resolve(rv(n))
                ret = 'false' if constval(v) in (0, False) and v[0] == 'c' else ('res' if any(x[0] == 'fld' and x[2] == F_RES or x[0] == 'call' and short(x[1]) == 'process_event' for x in g.sources(rv(n))) else 'other:' + show(v))
            return ((dispatched, ret, exc),)
        reached, trace = run(g, ((), None, False), step, init_facts=fs)
        ends = {st[1]: st for st in reached.get(g.exit.id, ())}
        disp = {e[0] for e in ends}
        want = {(), (c['n'],)}
        bad = disp - want
        ctx.ob('dispatch', inst, (c['n'],) in disp and not bad, f.loc(), 'dispatches %s' % sorted(bad or disp))
        # result: dispatched -> machine's verdict, refused -> false
        badr = [e for e in ends if (e[0] and e[1] != 'res' and not (e[1] == 'false' and e[2])) or (not e[0] and e[1] != 'false')]
        ctx.ob('result-reported', inst, not badr and any(e[0] and e[1] == 'res' for e in ends), f.loc(), 'returns %s after dispatching %s' % ((badr or list(ends))[0][1], (badr or list(ends))[0][0]),
               fmt_trace(trace(g.exit, ends[badr[0]])) if badr else None)
    # a catch handler returning false may follow a dispatch; otherwise the result must be the machine's
    # the verdict is fresh: reset before dispatch (the error state swallows events silently), set by the row action, cleared on refusal
    stale = passes_before(g, lambda n: n in pe, lambda n: resolved_is_write(g, n, F_RES, 0), reset_pred=None)
    ctx.ob('result-fresh', 'verdict is reset before the event is processed', not stale, where(stale[0][0]) if stale else '', 'after the device reached its terminal error state the machine ignores events and the previous verdict (accepted) would be reported', stale[0][1] if stale else None)
    acts = ctx.fns(M + '::DefaultFct::operator()', need=1)
    ctx.ob('action-instances', 'row action instantiated for every row', len(acts) >= len(SPEC), acts[0].loc(), '%d instances' % len(acts))
    for a in acts:
        ga = ctx.graph(a)
        targs = split_targs('x' + a.ta)
        nm = '%s in %s' % (short(targs[0]), short(targs[2]))
        want_t, _ = type_of(ctx, targs[3])
        want_e, _ = type_of(ctx, targs[0])
        ws = [n for n in ga.nodes if n.id in ga.live and resolved_is_write(ga, n, F_NEW)]
        okw = bool(ws) and all(show(ga.resolve(n.d['rhs'])).endswith(want_t) for n in ws)
        ctx.ob('action-target', nm, okw, a.loc(), 'published new state: %s, required %s' % ([show(ga.resolve(n.d['rhs'])) for n in ws], want_t))
        lang(ctx, 'action-complete', nm, ga, lambda n: 'N' if resolved_is_write(ga, n, F_NEW) else 'T' if resolved_is_write(ga, n, F_RES, 1) else 'P' if resolved_is_write(ga, n, F_PEND, 1) else
             'X' if resolved_is_write(ga, n, F_PEND) or resolved_is_write(ga, n, F_RES) else None, '(NTP|NPT|TNP|TPN|PNT|PTN)', legend='N publish the new state, T verdict accepted, P mark pending')
        tc = [n for n in ga.nodes if n.id in ga.live and is_sig_call(ga, n) == 't']
        for n in tc:
            ctx.ob('transition-announced', nm, show(ga.resolve(n.d['args'][0])).endswith(want_e), where(n), 'announces ' + show(ga.resolve(n.d['args'][0])))
        if not tc:
            ctx.bad('transition-announced', nm, a.loc(), 'subscribers of new transitions are not told')
    for a in ctx.fns(M + '::no_transition'):
        ga = ctx.graph(a)
        lang(ctx, 'refusal-verdict', 'refused event ' + short(split_targs('x' + a.ta)[-1]), ga, lambda n: 'F' if resolved_is_write(ga, n, F_RES, 0) else 'X' if any(resolved_is_write(ga, n, q) for q in (F_RES, F_PEND, F_STATE, F_NEW)) else None,
             'F+', legend='F verdict refused, X any other state update')
        break
    # name based request goes through the same path
    for o in ctx.fns(SM + '::ChangeState'):
        if o is f:
            continue
        go = ctx.graph(o, inline=lambda x: False)
        ok = any(n.d['q'] == SM + '::ChangeState' and any('GetTransition' in q for q in go.src_calls(n.d['args'][0])) for n in go.find(lambda n: n.kind == 'call'))
        ctx.ob('request-by-name', 'request by name', ok, o.loc(), 'does not forward the named transition')
    st = [x for x in walk(ctx.fns(M + '::Machine_')[0].inits)]
    gm = ctx.graph(ctx.fns(M + '::Machine_')[0])
    ctx.ob('initial-pending', 'no transition is pending initially', any(resolved_is_write(gm, n, F_PEND, 0) for n in gm.nodes) and not any(resolved_is_write(gm, n, F_PEND, 1) for n in gm.nodes), gm.root.loc(), 'pending flag not cleared by the constructor')


@prop('C02', UNITS)
def c02(ctx):
    """serialised transitions"""
    f = change_state_fn(ctx)
    g = ctx.graph(f)
    ml = must_locks(g)
    pe = process_events(g)
    if not pe:
        ctx.broken('no process_event call')
    mf = must_facts(g)
    tr = {c['n']: c['v'] for c in enum_vals(ctx, 'fair::mq::Transition')['c']}
    for n in pe:
        ty, _ = type_of(ctx, event_type(g, n))
        ctx.ob('dispatch-locked', 'processing %s' % ty, MTX in ml.get(n.id, ()), where(n), 'event processed without the state mutex')
    # non-error requests are only processed when nothing is pending
    F = Facts(g)
    for nm, v in tr.items():
        def step(n, s, fs):
            return (s,)

        def edge(n, m, lab, s):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                if fldq(key) == F_PEND or key == ('fld',) or any(x[0] == 'fld' and x[2] == F_PEND for x in sub(key)) and key[0] != 'op':
                    return 'pending' if (lab if pol else not lab) else 'free'
            return s
        reached, trace = run(g, 'unknown', step, edge, init_facts=pfact(g, 0, v))
        sts = {st[1] for n in pe for st in reached.get(n.id, ())}
        if nm == 'ErrorFound':
            ctx.ob('error-always', 'an error is accepted even while another transition is pending', 'pending' in sts or 'unknown' in sts, f.loc(), 'error transition refused while another is pending')
        else:
            ctx.ob('one-pending', 'request %s refused while another transition is pending' % nm, sts == {'free'}, f.loc(), 'event can be processed in state %s' % sorted(sts - {'free'}))
    # the flag checked and the event processed in one critical section
    for n in g.nodes:
        if n.id in g.live and n.kind == 'aload' and fldq(g.resolve(n.d['term'])) == F_PEND:
            ctx.ob('check-locked', 'pending flag read for the decision', MTX in ml.get(n.id, ()), where(n), 'the pending flag is tested outside the critical section that processes the event')
    rel = passes_after_release(g, pe)
    ctx.ob('one-critical-section', 'test and dispatch', not rel, where(rel[0]) if rel else '', 'state mutex released between test and dispatch')
    # row actions wake the worker; they run inside ChangeState's critical section
    for a in ctx.fns(M + '::DefaultFct::operator()'):
        ga = ctx.graph(a)
        tg = split_targs('x' + a.ta)
        lang(ctx, 'pending-notified', '%s in %s' % (short(tg[0]), short(tg[2])), ga,
             lambda n: 'N' if notifies(n, CV) else None, 'N+', legend='N notify waiters')
        for n in ga.find(lambda n: notifies(n, CV)):
            if short(n.d['q']) == 'notify_one':
                ctx.bad('pending-notified', 'all waiters are woken', where(n), 'only one of several waiters is woken')
    # worker: waits for the flag, then consumes state and flag in the same critical section
    w = ctx.fn(M + '::ProcessWork')
    gw = ctx.graph(w)
    mlw = must_locks(gw)
    for n in gw.nodes:
        if n.id not in gw.live:
            continue
        for q, nm in ((F_STATE, 'current state'), (F_PEND, 'pending flag')):
            if resolved_is_write(gw, n, q):
                ctx.ob('consume-locked', 'worker updates the ' + nm, MTX in mlw.get(n.id, ()), where(n), 'updated without the state mutex: a transition requested meanwhile is lost')
    lang(ctx, 'consume-once', 'worker consumes each pending transition', gw, lambda n: 'W' if n.kind == 'call' and 'wait' in short(n.d['q']) and n.d.get('obj') is not None and fldq(gw.resolve(n.d['obj'])) == CV else
         'S' if resolved_is_write(gw, n, F_STATE) else 'C' if resolved_is_write(gw, n, F_PEND, 0) else 'R' if unlocks(gw, n) else 'X' if resolved_is_write(gw, n, F_PEND) else None,
         '(W+(SC|CS)R)*', legend='W wait, S take over the new state, C clear pending, R release the mutex')
    for n in gw.find(lambda n: resolved_is_write(gw, n, F_STATE)):
        ctx.ob('consume-state', 'worker adopts the requested state', F_NEW in gw.src_fields(n.d['rhs']), where(n), 'adopts ' + show(n.d['rhs']))
    # every wait on the condition variable has the pending predicate
    for fn in [x for x in ctx.P.fns.values() if x.clsq in (M, SM) and x.kind in ('method',)]:
        gg = ctx.graph(fn)
        for n in gg.find(lambda n: n.kind == 'call' and n.d['q'].startswith('std::condition_variable') and short(n.d['q']).startswith('wait')):
            if fldq(gg.resolve(n.d['obj'])) != CV:
                continue
            inst = '%s waits for a pending transition' % owner(n)
            hasp = any(m.kind == 'waitpred' for m, _ in n.succ)
            ctx.ob('wait-predicate', inst, hasp, where(n), 'wait without predicate: lost wake-up or spurious return')
            if hasp:
                pr = wait_preds(gg, n)
                ctx.ob('wait-predicate', inst + ' (predicate)', bool(pr) and all(p == F_PEND for p in pr), where(n), 'predicate tests %s' % pr)
            ctx.ob('wait-locked', inst, MTX in must_locks(gg).get(n.id, ()), where(n), 'waits without the state mutex')
    # nobody else writes the flag
    for fn in ctx.P.fns.values():
        if fn.file.startswith('/repo') and fn.kind not in ('ctor',) and fn.name not in ('operator()', 'ProcessWork'):
            gg = None
            for x in walk([fn.body]):
                if x.get('k') == 'mem' and x.get('q') == F_PEND:
                    gg = ctx.graph(fn, inline=lambda z: False)
                    break
            if gg:
                for n in gg.find(lambda n: resolved_is_write(gg, n, F_PEND)):
                    ctx.bad('flag-writers', fn.q, where(n), 'writes the pending flag outside the row action and the worker')
    q = ctx.fn(SM + '::WaitForPendingStateFor')
    gq = ctx.graph(q)
    for n in ret_values(gq):
        ok = F_PEND in {s[2] for s in gq.sources(rv(n)) if s[0] == 'fld'} or any('wait_for' in c for c in gq.src_calls(rv(n)))
        ctx.ob('timed-wait-result', 'timed wait reports whether a transition is pending', ok, where(n), 'returns ' + show(rv(n)))
    q = ctx.fn(SM + '::NewStatePending')
    gq = ctx.graph(q)
    for n in ret_values(gq):
        ctx.ob('query', 'pending query', fldq(gq.resolve(rv(n))) == F_PEND, where(n), 'returns ' + show(rv(n)))
    q = ctx.fn(SM + '::GetCurrentState')
    gq = ctx.graph(q)
    for n in ret_values(gq):
        ctx.ob('query', 'current state query', fldq(gq.resolve(rv(n))) == F_STATE, where(n), 'returns ' + show(rv(n)))


def unlocks(g, n):
    return any(e[0] in ('relvar', 'relmtx') for e in lock_effect(g, n))


def wait_preds(g, n):
    """fields tested (positively) by the predicate of wait node n"""
    out = []
    for m, _ in n.succ:
        if m.kind != 'waitpred':
            continue
        todo, seen = [m], set()
        while todo:
            x = todo.pop()
            if x.id in seen or len(seen) > 60:
                continue
            seen.add(x.id)
            if x.kind == 'write' and x.d.get('ret'):
                r = norm(g.resolve(x.d['rhs']))
                out.append(fldq(r[0]) if r[1] else '!' + str(fldq(r[0])))
                continue
            todo += [y for y, l in x.succ if l != 'exc']
    return out


def passes_after_release(g, targets):
    """targets reached after the lock was released and re-acquired since the first acquisition"""
    def step(n, s, fs):
        for e in lock_effect(g, n):
            if e[0] in ('relvar', 'relmtx') and s == 1:
                s = 2
            elif e[0] in ('acq', 'acqvar') and s == 0:
                s = 1
        return (s,)
    reached, _ = run(g, 0, step)
    return [n for n in targets if any(st[1] == 2 for st in reached.get(n.id, ()))]


@prop('C03', UNITS)
def c03(ctx):
    """state entry protocol"""
    w = ctx.fn(M + '::ProcessWork')
    g = ctx.graph(w)
    F = Facts(g)

    def cl(n):
        s = is_sig_call(g, n)
        if s:
            return s
        if resolved_is_write(g, n, F_STATE):
            return 'S'
        return None

    def ed(n, m, lab):
        return sig_empty_edge(F, g, n, lab)
    lang(ctx, 'entry-order', 'prepare, announce, handle for every state', g, cl, '(Spch)*', edge=ed, legend='S new state adopted, p preparation, c state-change callbacks, h handler')
    lang(ctx, 'entry-order', 'error state is announced before the worker gives up', g, cl, '(Spch)*', ends=('exc',), edge=None if False else ed, facts=True, need=True) if False else None
    yl = may_locks(g)
    for n in g.find(lambda n: is_sig_call(g, n)):
        k = is_sig_call(g, n)
        nm = {'p': 'preparation', 'c': 'state-change callbacks', 'h': 'handler', 't': 'transition callbacks'}[k]
        ctx.ob('no-callback-under-lock', nm, not (yl[n.id] & {MTX, SMTX}), where(n), 'called with %s held: a callback that requests a transition deadlocks' % sorted(yl[n.id]))
        flds = {s[2] for s in g.sources(n.d['args'][0]) if s[0] == 'fld'}
        ctx.ob('entry-argument', nm, F_STATE in flds, where(n), 'called with %s, not the current state' % show(n.d['args'][0]))
    # termination: for each adopted state decide the loop's continuation
    st = enum_vals(ctx, 'fair::mq::State')
    sw = lambda n: resolved_is_write(g, n, F_STATE)
    for c in st['c']:
        seen = set()
        inj = inject_all_reads(g, F_STATE, sw, c['v'])

        def step(n, s, fs):
            if sw(n):
                if s == 1:
                    seen.add('continue')
                    return ()
                s = 1
            return (s,)
        reached, trace = run(g, 0, step, inject=inj)
        if any(x[1] == 1 for x in reached.get(g.exit.id, ())):
            seen.add('return')
        for n in g.find(lambda n: n.kind == 'throw'):
            if any(x[1] == 1 for x in reached.get(n.id, ())):
                seen.add('error')
        want = {'Error': {'error'}, 'Exiting': {'return'}}.get(c['n'], {'continue'})
        ctx.ob('worker-continuation', 'after state %s' % c['n'], seen == want, w.loc(), 'worker does: %s, required: %s' % (sorted(seen), sorted(want)))
    for n in g.find(lambda n: n.kind == 'throw'):
        ctx.ob('error-exception', 'worker reports the error state', 'ErrorStateException' in n.d.get('t', ''), where(n), 'throws ' + n.d.get('t', ''))
    # outer driver: any exception leads to the error state
    o = ctx.fn(SM + '::ProcessWork')
    go = ctx.graph(o, dtors=True)
    def clo(n):
        if resolved_is_write(go, n, F_STATE) and show(go.resolve(n.d['rhs'])).endswith('Error') and go.resolve(n.d['rhs'])[0] == 'enum':
            return 'E'
        return None
    # nodes after worker entry: every exceptional exit must pass E
    enters = [n for n in go.nodes if n.id in go.live and n.kind == 'enter' and n.d['fn'].q == M + '::ProcessWork']
    if not enters:
        ctx.broken('the driver does not run the worker')

    def step2(n, s, fs):
        if n in enters:
            return ('in',)
        if clo(n):
            return ('err',)
        return (s,)
    reached, trace = run(go, 'before', step2, facts=True)
    bad = [x for x in reached.get(go.exc_exit.id, ()) if x[1] != 'err'] if go.exc_exit is not None else []
    bad = [x for x in bad if x[1] == 'in']
    ctx.ob('exception-to-error', 'any exception out of a state handler puts the device into the error state', not bad and any(x[1] == 'err' for x in reached.get(go.exc_exit.id, ())), o.loc(), 'an exception leaves the driver without entering the error state', fmt_trace(trace(go.exc_exit, bad[0])) if bad else None)
    badx = [x for x in reached.get(go.exit.id, ()) if x[1] == 'err']
    ctx.ob('exception-to-error', 'normal termination does not enter the error state', not badx, o.loc(), 'error state entered on normal termination', fmt_trace(trace(go.exit, badx[0])) if badx else None)
    ok = any(short(n.d['q']) == 'process_event' and 'ERROR' in event_type(go, n) for n in go.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'process_event'))
    ctx.ob('exception-to-error', 'the machine is told about the error', ok or any(n.d['q'] == SM + '::ChangeState' for n in go.find(lambda n: n.kind == 'call')), o.loc(), 'the failed state is not propagated to the machine')
    for n in go.find(lambda n: resolved_is_write(go, n, F_STATE) and clo(n)):
        ctx.ob('error-locked', 'error state entered under the state mutex', MTX in must_locks(go).get(n.id, ()), where(n), 'current state overwritten without the mutex')
    lang(ctx, 'error-announced', 'error state is announced to subscribers', go, lambda n: 'E' if clo(n) else 'c' if is_sig_call(go, n) == 'c' else None, '[c]*(E c+)?', ends=('exc',),
         edge=lambda n, m, lab: 'c' if sig_empty_edge(Facts0(go), go, n, lab) == 'c' else None, need=False)
    # initial announcement of Idle before work starts
    lang(ctx, 'idle-announced', 'the initial idle state is announced', go, lambda n: 'c' if is_sig_call(go, n) == 'c' else 'W' if n in enters else None, 'cWc*',
         edge=lambda n, m, lab: 'c' if sig_empty_edge(Facts0(go), go, n, lab) == 'c' else None)
    # start/stop of handlers
    for nm, sig in (('PrepareState', 'p'), ('HandleStates', 'h')):
        f = ctx.fn(SM + '::' + nm)
        gf = ctx.graph(f)
        con = [n for n in gf.find(lambda n: n.kind == 'call' and short(n.d['q']).startswith('connect') and n.d['cls'].startswith('boost::signals2::signal<'))]
        ok = bool(con) and all(SIGS.get(fldq(gf.resolve(n.d['obj']))) == sig and any(0 in parms_in(gf, a) for a in n.d['args']) for n in con)
        ctx.ob('handler-registration', nm, ok, f.loc(), 'callback is not connected to its own signal')
        cnt = count_on_paths(gf, lambda n: n in con)
        ctx.ob('handler-registration', nm + ' installs at most one handler', max(cnt) <= 1 and all(holds(gf, n, lambda k, v: v is True and k[0] == 'call' and short(k[1]) == 'empty' and SIGS.get(fldq(k[2])) == sig) for n in con), f.loc(), 'a second handler can be installed')
    f = ctx.fn(SM + '::StopHandlingStates')
    gf = ctx.graph(f)
    FF = Facts(gf)
    for sig, nm in (('p', 'preparation'), ('h', 'handler')):
        lang(ctx, 'handler-removal', nm, gf, lambda n: 'd' if n.kind == 'call' and short(n.d['q']) == 'disconnect_all_slots' and SIGS.get(fldq(gf.resolve(n.d['obj']))) == sig else None, 'd+',
             edge=lambda n, m, lab: 'd' if sig_empty_edge(FF, gf, n, lab) == sig else None, legend='d handler removed (or none installed)')


_F0 = {}


def Facts0(g):
    if id(g) not in _F0:
        _F0[id(g)] = Facts(g)
    return _F0[id(g)]


def inject_all_reads(g, q, pred, val):
    terms = {s for n in g.nodes if n.kind == 'branch' for s in sub(g.resolve(n.d['cond'])) if s[0] == 'fld' and s[2] == q}
    terms |= {s for n in g.nodes if n.kind == 'switch' for s in sub(g.resolve(n.d['cond'])) if s[0] == 'fld' and s[2] == q}

    def f(n, fs):
        if pred(n):
            d = dict(fs)
            for t in terms:
                d[t] = ('=', val)
            d[n.d['lhs']] = ('=', val)
            return frozenset(d.items())
        # values survive calls: the question is "if the adopted state is val"
        d = dict(fs)
        return fs
    return keep_injected(f, terms, pred, val)


def keep_injected(f, terms, pred, val):
    active = {}

    def h(n, fs):
        if pred(n):
            return f(n, fs)
        # re-assert on nodes that follow (facts about atomics are dropped at unknown calls)
        if any(k[0] == 'x' and k[1] == 'injected' for k, _ in fs):
            d = dict(fs)
            for t in terms:
                d[t] = ('=', val)
            return frozenset(d.items())
        return fs

    def first(n, fs):
        r = h(n, fs)
        if pred(n):
            d = dict(r)
            d[('x', 'injected')] = True
            return frozenset(d.items())
        return r
    return first


def const_strings(init):
    out = []

    def rec(x):
        if isinstance(x, dict):
            if x.get('k') == 'str':
                out.append(x['v'])
                return
            for v in x.get('a', []) if isinstance(x.get('a'), list) else [x.get('a')]:
                rec(v)
            if isinstance(x.get('e'), dict):
                rec(x['e'])
        elif isinstance(x, list):
            for y in x:
                rec(y)
    rec(init)
    return out


def const_pairs(init):
    """[(key, value)] of a constant table; each side is ('s', text) or ('e', enumerator)"""
    out = []

    def leaf(x):
        while isinstance(x, dict):
            if x.get('k') == 'str':
                return ('s', x['v'])
            if x.get('dk') == 'enum':
                return ('e', short(x['q']))
            if x.get('k') in ('int', 'bool', 'char') and 'v' in x:
                return ('c', x['v'])
            if 'cv' in x and x.get('k') != 'ctor':
                return ('c', x['cv'])
            a = x.get('a')
            if isinstance(a, list) and a:
                x = a[0]
            elif isinstance(a, dict):
                x = a
            elif isinstance(x.get('e'), dict):
                x = x['e']
            else:
                return None
        return None
    for x in walk(init):
        if x.get('k') == 'ctor' and x.get('cls', '').startswith('std::pair<') and len(x.get('a', [])) == 2:
            a, b = leaf(x['a'][0]), leaf(x['a'][1])
            if a and b:
                out.append((a, b))
    return out


@prop('C04', ['fairmq/States.cxx', 'analyzer/inst_core.cpp', 'fairmq/shmem/Monitor.cxx', 'fairmq/TransportFactory.cxx', 'fairmq/Device.cxx'])
def c04(ctx):
    """name tables"""
    P = ctx.P

    def enumerators(q):
        return [(c['n'], c['v']) for c in enum_vals(ctx, q)['c']]
    # -- states and transitions
    for enum, toname, fromname in (('State', 'GetStateName', 'GetState'), ('Transition', 'GetTransitionName', 'GetTransition')):
        en = enumerators('fair::mq::' + enum)
        f = ctx.fn('fair::mq::' + toname)
        names = {}
        for n, v in en:
            r = eval_const(ctx, f, v)
            names[n] = r
            ctx.ob('name-defined', '%s of %s' % (toname, n), isinstance(r, str) and r != '', f.loc(), 'no name: %s' % (r,))
        inv = {}
        for n, s in names.items():
            inv.setdefault(s, []).append(n)
        for s, l in inv.items():
            ctx.ob('name-unique', '%s name %s' % (enum, s), len(l) == 1, f.loc(), 'shared by %s' % l)
        g = ctx.fn('fair::mq::' + fromname)
        tab = lookup_table(ctx, g)
        for n, s in names.items():
            ctx.ob('name-roundtrip', '%s %s' % (enum, n), tab.get(s) == n, g.loc(), '"%s" reads back as %s' % (s, tab.get(s)))
        for s, n in tab.items():
            ctx.ob('name-roundtrip', '%s text "%s"' % (enum, s), names.get(n) == s, g.loc(), 'reads as %s whose name is "%s"' % (n, names.get(n)))
        for fn in (f, g):
            gg = ctx.graph(fn)
            for x in gg.find(lambda n: n.kind == 'call' and short(n.d['q']) in ('operator[]', 'at', 'find')):
                pass
        gg = ctx.graph(g)
        ins = gg.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'operator[]')
        ctx.ob('unknown-rejected', '%s rejects unknown text' % fromname, not ins and (bool(gg.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'at')) or bool(gg.find(lambda n: n.kind == 'throw'))), g.loc(), 'an unknown name is not rejected')
        want = SPECNAMES[enum]
        for n, s in names.items():
            if n in want:
                ctx.ob('documented-name', '%s %s' % (enum, n), s == want[n], f.loc(), 'is "%s", documented "%s"' % (s, want[n]))
    # -- transports
    en = [n for n, _ in enumerators('fair::mq::Transport')]
    tt = P.vars.get('fair::mq::TransportTypes') or P.vars.get('fair::mq::TransportTypesStd')
    tn = P.vars.get('fair::mq::TransportNames')
    if not tt or not tn:
        ctx.broken('transport name tables not found')
    fwd = {a[1]: b[1] for a, b in const_pairs(tt['init'])}
    rev = {a[1]: b[1] for a, b in const_pairs(tn['init'])}
    for e in en:
        ctx.ob('name-defined', 'transport %s' % e, e in rev, tn['file'], 'no name')
        ctx.ob('name-roundtrip', 'transport %s' % e, fwd.get(rev.get(e)) == e, tn['file'], '"%s" reads back as %s' % (rev.get(e), fwd.get(rev.get(e))))
        ctx.ob('documented-name', 'transport %s' % e, rev.get(e) == SPECNAMES['Transport'].get(e, rev.get(e)), tn['file'], 'is "%s"' % rev.get(e))
    for s, e in fwd.items():
        ctx.ob('name-roundtrip', 'transport text "%s"' % s, rev.get(e) == s, tt['file'], 'is %s whose name is "%s"' % (e, rev.get(e)))
    # -- error codes
    em = [f for f in P.fns.values() if f.name == 'message' and 'ErrorCategory' in f.clsq]
    if em:
        msgs = {}
        for n, v in enumerators('fair::mq::ErrorCode'):
            r = eval_const(ctx, em[0], v)
            msgs[n] = r
            ctx.ob('error-message', n, isinstance(r, str) and 'nrecognized' not in r and r != '', em[0].loc(), 'no text for this error: %s' % (r,))
        for n, r in msgs.items():
            ctx.ob('error-message-unique', n, list(msgs.values()).count(r) == 1, em[0].loc(), 'text shared with another error: %s' % r)
        ev = [v for _, v in enumerators('fair::mq::ErrorCode')]
        ctx.ob('error-nonzero', 'no error code equals success', 0 not in ev and len(set(ev)) == len(ev), em[0].loc(), str(ev))
    else:
        ctx.broken('error category not found')


SPECNAMES = {
    'State': {'Undefined': 'UNDEFINED', 'Ok': 'OK', 'Error': 'ERROR', 'Idle': 'IDLE', 'InitializingDevice': 'INITIALIZING DEVICE', 'Initialized': 'INITIALIZED', 'Binding': 'BINDING',
              'Bound': 'BOUND', 'Connecting': 'CONNECTING', 'DeviceReady': 'DEVICE READY', 'InitializingTask': 'INITIALIZING TASK', 'Ready': 'READY', 'Running': 'RUNNING',
              'ResettingTask': 'RESETTING TASK', 'ResettingDevice': 'RESETTING DEVICE', 'Exiting': 'EXITING'},
    'Transition': {'Auto': 'AUTO', 'InitDevice': 'INIT DEVICE', 'CompleteInit': 'COMPLETE INIT', 'Bind': 'BIND', 'Connect': 'CONNECT', 'InitTask': 'INIT TASK', 'Run': 'RUN', 'Stop': 'STOP',
                   'ResetTask': 'RESET TASK', 'ResetDevice': 'RESET DEVICE', 'End': 'END', 'ErrorFound': 'ERROR FOUND'},
    'Transport': {'DEFAULT': 'default', 'ZMQ': 'zeromq', 'SHM': 'shmem'},
}


def eval_const(ctx, f, v):
    """text returned by f when its first parameter equals v (abstract evaluation over the branch structure)"""
    g = ctx.graph(f)
    reached, _ = run(g, 0, lambda n, s, fs: (s,), init_facts=pfact(g, 0, v))
    out = set()
    for n in g.nodes:
        if n.kind == 'ret' and n.id in reached and n.d.get('term') is not None:
            out.add(text_of(ctx, g, rv(n), v))
    if len(out) == 1:
        return next(iter(out))
    return out


def text_of(ctx, g, t, v):
    t = canon(g, t)
    for _ in range(6):
        if t[0] in ('ctor',) and t[2]:
            t = t[2][0]
        elif t[0] in ('deref', 'addr'):
            t = t[1]
        else:
            break
    if t[0] == 's':
        return t[1]
    base = idx = None
    if t[0] == 'call' and short(t[1]) in ('at', 'operator[]'):
        base, idx = t[2], t[3][0]
    elif t[0] == 'idx':
        base, idx = t[1], t[2]
    if base is not None and base[0] == 'glob' and base[1] in ctx.P.vars:
        init = ctx.P.vars[base[1]].get('init')
        prs = const_pairs(init)
        if prs:
            d = {}
            for a, b in prs:
                d[a[1]] = b[1]
            for k, x in d.items():
                if k == v:
                    return x
            return None
        l = const_strings(init)
        if parm_idx(g, idx) == 0 or constval(idx) == v:
            return l[v] if isinstance(v, int) and 0 <= v < len(l) else None
    return show(t)


def lookup_table(ctx, f):
    """text -> enumerator table used by f"""
    g = ctx.graph(f)
    for n in g.nodes:
        for k in ('term', 'val', 'rhs'):
            t = n.d.get(k)
            if isinstance(t, tuple):
                for s in sub(t):
                    if s[0] == 'glob' and s[1] in ctx.P.vars:
                        pr = const_pairs(ctx.P.vars[s[1]].get('init'))
                        if pr:
                            d = {}
                            for a, b in pr:
                                d.setdefault(a[1], b[1])
                            return d
    # if-chain
    d = {}
    for n in g.nodes:
        if n.kind == 'ret' and n.id in g.live and n.d.get('term') is not None:
            r = g.resolve(rv(n))
            if r[0] == 'enum':
                for k, v in must_facts(g).get(n.id, ()):
                    if v is True and k[0] == 'op' and k[1] == '==':
                        for s in sub(k):
                            if s[0] == 's':
                                d[s[1]] = short(r[1])
    if d:
        return d
    ctx.broken('no constant table behind ' + f.q)


@prop('C05', UNITS)
def c05(ctx):
    """keyed state subscriptions"""
    MAPS = {'StateChange': (M + '::fStateChangeSignalsMap', M + '::fStateChangeSignal'), 'NewTransition': (M + '::fNewTransitionSignalsMap', M + '::fNewTransitionSignal')}
    pub = [f for f in ctx.P.fns.values() if f.clsq == SM and f.kind == 'method' and f.acc == 'public']
    h = guarded(ctx, 'guarded-by', pub, {m: SMTX for m, _ in MAPS.values()})
    if len(h) < 4:
        ctx.broken('fewer than 4 accesses to the subscription tables')
    for nm, (mp, sig) in MAPS.items():
        keyed_subscription(ctx, nm, ctx.fn(SM + '::SubscribeTo' + nm), ctx.fn(SM + '::UnsubscribeFrom' + nm), mp, sig)


def keyed_subscription(ctx, nm, fs, fu, mp, sig):
    g = ctx.graph(fs)
    F = Facts(g)
    con = g.find(lambda n: n.kind == 'call' and short(n.d['q']).startswith('connect') and n.d['cls'].startswith('boost::signals2::signal<'))
    cnt = count_on_paths(g, lambda n: n in con)
    ctx.ob('subscribe-connects', nm, set(cnt) == {1} and all(fldq(g.resolve(n.d['obj'])) == sig and any(1 in parms_in(g, a) for a in n.d['args']) for n in con), fs.loc(), 'the callback is not connected exactly once to its signal (%s)' % sorted(cnt))

    def step(n, s, f_):
        st, ins = s
        if n.kind == 'call' and n.d.get('obj') is not None:
            m = short(n.d['q'])
            if m == 'disconnect' and n.d['cls'] == 'boost::signals2::connection' and any(x[0] == 'fld' and x[2] == mp for x in g.sources(n.d['obj'])):
                st = 'disconnected'
            elif m == 'erase' and base_is(g, n.d['obj'], mp):
                st = 'absent' if st in ('disconnected', 'absent') else 'leaked'
            elif m in INSERTERS and base_is(g, n.d['obj'], mp):
                ok = st == 'absent' or (st == 'disconnected' and m == 'insert_or_assign')
                ins = 'ok' if ok else 'bad:' + st
        if n.kind == 'write' and n.d.get('cls') in ('boost::signals2::connection', 'boost::signals2::scoped_connection') and n.d['lhs'][0] != 'var' and any(x[0] == 'fld' and x[2] == mp for x in g.sources(n.d['lhs'])):
            ins = 'ok' if st in ('absent', 'disconnected') else 'bad:' + st
        return ((st, ins),)

    def edge(n, m, lab, s):
        l = edge_lookup(F, g, n, lab, mp)
        if l and s[0] in ('start', 'present', 'absent'):
            return (l, s[1])
        return s
    reached, trace = run(g, ('start', None), step, edge)
    res = {}
    for st in reached.get(g.exit.id, ()):
        res.setdefault(st[1][1], fmt_trace(trace(g.exit, st)))
    bad = {k: v for k, v in res.items() if k != 'ok'}
    ctx.ob('resubscribe-replaces', nm, bool(res) and not bad, fs.loc(), 'a subscription under a key already in use is connected but not recorded, so it can never be removed (%s)' % sorted(map(str, bad)), next(iter(bad.values()), None))
    for x in g.find(lambda n: n.kind == 'call' and short(n.d['q']) in INSERTERS and n.d.get('obj') is not None and base_is(g, n.d['obj'], mp)):
        src = set()
        for a in x.d['args']:
            src |= {short(q) for q in g.src_calls(a)}
        ctx.ob('subscription-key', nm + ' stored under the caller\'s key', any(0 in parms_in(g, a) for a in x.d['args']) and any(s.startswith('connect') for s in src), where(x), 'stored: %s' % [show(a) for a in x.d['args']])
    g = ctx.graph(fu)
    F2 = Facts(g)

    def step2(n, s, f_):
        if n.kind == 'call' and n.d.get('obj') is not None:
            m = short(n.d['q'])
            if m == 'disconnect' and n.d['cls'] == 'boost::signals2::connection' and any(x[0] == 'fld' and x[2] == mp for x in g.sources(n.d['obj'])):
                s = 'disc' if s == 'start' else s
            elif m in ('erase', 'extract') and base_is(g, n.d['obj'], mp):
                s = 'done' if s == 'disc' else 'erased-connected'
        return (s,)

    def edge2(n, m, lab, s):
        l = edge_lookup(F2, g, n, lab, mp)
        if l == 'absent' and s == 'start':
            return 'done'
        return s
    reached, trace = run(g, 'start', step2, edge2)
    sts = {x[1] for x in reached.get(g.exit.id, ())}
    ctx.ob('unsubscribe-disconnects', nm, sts == {'done'}, fu.loc(), 'returns in state %s' % sorted(sts))
    for x in container_ops(g, mp):
        if x.d['args'] and short(x.d['q']) in ('find', 'count', 'at', 'contains', 'operator[]'):
            ctx.ob('subscription-key', nm + ' removed by the caller\'s key (%s)' % short(x.d['q']), 0 in parms_in(g, x.d['args'][0]), where(x), 'looks up ' + show(x.d['args'][0]))
        if short(x.d['q']) == 'clear':
            ctx.bad('subscription-key', nm + ' unsubscribing one key keeps the others', where(x), 'clears all subscriptions')
    for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']) in ('disconnect_all_slots',)):
        ctx.bad('subscription-key', nm + ' unsubscribing one key keeps the others', where(n), 'disconnects every subscriber')
