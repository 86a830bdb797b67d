"""C06: StateQueue."""
from .core import prop, run, Facts, short, fmt_trace, show, sub
from .lib import *

Q = 'fair::mq::StateQueue'
ST, MTX, CV = Q + '::fStates', Q + '::fMtx', Q + '::fCV'
PUSHES = ('push', 'emplace', 'push_back', 'emplace_back')
POPS = ('pop', 'pop_front')


def empties(F, g, n, lab, q=ST):
    """'nonempty'/'empty' when this edge decides emptiness of container q"""
    if n.kind != 'branch' or lab not in (True, False):
        return None
    key, pol = F.key(n.d['cond'])
    v = lab if pol else not lab
    if key[0] == 'call' and short(key[1]) == 'empty' and key[2] is not None and base_is(g, key[2], q):
        return 'empty' if v else 'nonempty'
    if key[0] == 'op' and key[1] in ('==', '<'):
        for s in (key[2], key[3]):
            if s[0] == 'call' and short(s[1]) == 'size' and s[2] is not None and base_is(g, s[2], q):
                if key[1] == '==' and constval(key[3]) == 0:
                    return 'empty' if v else 'nonempty'
                if key[1] == '<' and constval(key[2]) == 0:
                    return 'nonempty' if v else 'empty'
    if key[0] == 'call' and short(key[1]) == 'size' and key[2] is not None and base_is(g, key[2], q):
        return 'nonempty' if v else 'empty'
    return None


def cont(g, n, q, names):
    return n.kind == 'call' and n.d.get('obj') is not None and short(n.d['q']) in names and base_is(g, n.d['obj'], q)


def parm_call(g, n, idx=None):
    """call of a caller-supplied callable (root parameter)"""
    if n.kind != 'call' or n.d.get('op') != '()' and not n.d.get('callee'):
        return False
    t = n.d.get('obj') or n.d.get('callee')
    if t is None:
        return False
    i = parm_idx(g, t)
    if i is None:
        i = next(iter(parms_in(g, t)), None)
    return i is not None and (idx is None or i == idx)


def use_after_move(g):
    """calls of a callable object after it was moved from"""
    out = {}

    def step(n, s, fs):
        if n.kind == 'move' and n.d['term'][0] == 'var':
            return (s | {n.d['term'][1]},)
        if n.kind in ('write', 'decl'):
            l = n.d.get('lhs') or n.d.get('var')
            if l and l[0] == 'var' and l[1] in s:
                return (s - {l[1]},)
        if n.kind == 'call' and s:
            o = n.d.get('obj') or n.d.get('callee')
            if o is not None and o[0] == 'var' and o[1] in s:
                out[n.id] = n
        return (s,)
    run(g, frozenset(), step, facts=False)
    return list(out.values())


@prop('C06', ['analyzer/inst_core.cpp'])
def check(ctx):
    """state queue"""
    allf = [f for f in ctx.P.fns.values() if f.clsq == Q and f.kind == 'method']
    pub = [f for f in allf if f.acc == 'public']
    if len(pub) < 9:
        ctx.broken('only %d public functions of the state queue instantiated' % len(pub))
    h = guarded(ctx, 'guarded-by', pub, {ST: MTX})
    if len(h) < 3:
        ctx.broken('fewer than 5 guarded accesses')
    for f in pub:
        g = ctx.graph(f)
        F = Facts(g)
        ml = must_locks(g)
        nm = f.name + ('(%d)' % len(f.params))
        # FIFO discipline: only append, only take from the front
        for n in g.find(lambda n: n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], ST)):
            m = short(n.d['q'])
            if m in ('push_front', 'emplace_front', 'back', 'pop_back', 'insert', 'erase', 'top', 'operator[]', 'at', 'rbegin'):
                ctx.bad('fifo', '%s accesses the queue with %s' % (nm, m), where(n), 'breaks first-in first-out order')
        # nothing but clear drops states
        drops = g.find(lambda n: cont(g, n, ST, ('clear', 'swap')) or n.kind == 'write' and base_is(g, n.d['lhs'], ST) and n.d['lhs'][0] != 'var')
        if f.name != 'Clear':
            for n in drops:
                ctx.bad('fifo', '%s replaces the queue' % nm, where(n), 'states not yet delivered are dropped')
        # each pop follows a nonempty test in the same critical section and a non-error front
        def step(n, s, fs):
            if cont(g, n, ST, POPS) or n.kind == 'call' and short(n.d['q']).startswith('wait') or any(e[0] in ('relvar', 'relmtx') for e in lock_effect(g, n)):
                return ('unknown',)
            return (s,)

        def edge(n, m, lab, s):
            return empties(F, g, n, lab) or s
        reached, trace = run(g, 'unknown', step, edge)
        for n in g.find(lambda n: cont(g, n, ST, POPS + ('front',))):
            sts = {x[1] for x in reached.get(n.id, ())}
            ctx.ob('nonempty-access', '%s: %s' % (nm, short(n.d['q'])), sts <= {'nonempty'}, where(n), 'front of the queue accessed although it may be empty')
        for n in g.find(lambda n: cont(g, n, ST, POPS)):
            ok = holds(g, n, lambda k, v: v is False and k[0] == 'op' and k[1] == '==' and any(s[0] == 'call' and short(s[1]) == 'front' for s in sub(k)) and any(s[0] == 'enum' and s[1].endswith('State::Error') for s in sub(k)))
            ctx.ob('error-sticky', '%s: pop' % nm, ok, where(n), 'the error state can be consumed like an ordinary state')
        for n in g.find(lambda n: n.kind == 'throw' and 'DeviceErrorState' in n.d.get('t', '')):
            ok = holds(g, n, lambda k, v: v is True and k[0] == 'op' and k[1] == '==' and any(s[0] == 'call' and short(s[1]) == 'front' for s in sub(k)) and any(s[0] == 'enum' and s[1].endswith('State::Error') for s in sub(k)))
            ctx.ob('error-reported', '%s: error exception' % nm, ok, where(n), 'error reported although the next state is not the error state')
        if f.name.startswith('Wait'):
            ctx.ob('error-reported', '%s reports the error state' % nm, bool(g.find(lambda n: n.kind == 'throw' and 'DeviceErrorState' in n.d.get('t', ''))), f.loc(), 'never reports the error state')
            # a state is returned only after popping exactly that state, once
            for n in g.find(lambda n: n.kind == 'call' and n.d['q'].startswith('std::condition_variable') and short(n.d['q']).startswith('wait')):
                haspred = any(m.kind == 'waitpred' for m, _ in n.succ)
                ctx.ob('wait-predicate', nm, haspred, where(n), 'wait without a predicate (lost or spurious wake-up)')
                ctx.ob('wait-locked', nm, MTX in ml.get(n.id, ()) and fldq(g.resolve(n.d['obj'])) == CV, where(n), 'waits without the queue mutex')
            um = use_after_move(g)
            ctx.ob('predicate-alive', nm, not um, where(um[0]) if um else '', 'the caller\'s predicate is called after it was moved from')
        wait_result(ctx, g, F, f, nm)
        if f.name in ('Push', 'Notify', 'Locked'):
            sig = len(f.params) > 1 or f.name != 'Push'

            def cl(n, g=g, ml=ml, f=f):
                if cont(g, n, ST, PUSHES):
                    return 'P' if n.d['args'] and parm_idx(g, n.d['args'][0]) == 0 else 'X'
                if parm_call(g, n, len(f.params) - 1):
                    return 'S' if MTX in ml.get(n.id, ()) else 'X'
                if n.kind == 'call' and n.d['q'].startswith('std::function') and short(n.d['q']) == 'operator()' or n.kind == 'enter' and n.d['fn'].kind == 'lambda' and n.d.get('call') is not None and parm_call(g, n.d['call'], len(f.params) - 1):
                    return None
                if notifies(n, CV):
                    return 'n' if MTX in ml.get(n.id, ()) else 'N'
                return None
            core = {'Push': '(PS|SP)' if sig else 'P', 'Notify': 'S', 'Locked': 'S'}[f.name]
            rx = core if f.name == 'Locked' else '%s[nN]+|n+%s[nN]*' % (core, core)
            lang(ctx, 'push-notifies', nm, g, cl, rx, legend='P append the given state, S caller\'s action under the mutex, N/n wake a waiter (n: mutex held)')
        if f.name == 'Clear':
            def cl2(n, g=g):
                if n.kind == 'write' and base_is(g, n.d['lhs'], ST):
                    r = g.resolve(n.d['rhs'])
                    return 'C' if r[0] in ('ctor', 'init') and not (r[2] if r[0] == 'ctor' else r[1]) else 'X'
                if cont(g, n, ST, ('clear', 'swap')):
                    return 'C'
                return None

            def ed(n, m, lab, g=g, F=F):
                return 'C' if empties(F, g, n, lab) == 'empty' else None
            lang(ctx, 'clear-empties', 'Clear', g, cl2, 'C+', edge=ed)


def wait_result(ctx, g, F, f, nm):
    if not f.name.startswith('WaitFor'):
        return
    custom = len(f.params) - 1 if 'Custom' in f.name else None

    # --- what ends the (untimed) wait
    def step(n, s, fs):
        if n.kind == 'waitpred':
            return (frozenset(),)
        return (s,)

    def edge(n, m, lab, s):
        e = empties(F, g, n, lab)
        if e:
            s = (s - {'nonempty', 'empty'}) | {e}
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            v = lab if pol else not lab
            if custom is not None and any(x[0] == 'call' and short(x[1]) == 'operator()' and x[2] is not None and custom in parms_in(g, x[2]) for x in sub(key)) and key[0] != 'op':
                s = (s - {'custom', 'nocustom'}) | {'custom' if v else 'nocustom'}
        return s
    reached, trace = run(g, frozenset(), step, edge)
    for b in g.find(lambda n: n.kind == 'branch' and n.d.get('waitpred')):
        nexts = [m for m, l in b.succ if l is True]
        ends = set()
        for fs, s in reached.get(b.id, ()):
            # the branch continues (True) when the predicate value is true under facts
            r = F.branch(fs, b.d['cond'], True)
            if r is not None:
                ends.add(edge(b, nexts[0] if nexts else None, True, s))
        allow = {'nonempty'} if custom is None else ({'custom'} if 'Next' not in f.name and 'State' not in f.name else {'nonempty', 'custom'})
        bad = [e for e in ends if not (e & allow)]
        ctx.ob('wait-until', '%s ends only for %s' % (nm, ' or '.join(sorted(allow))), bool(ends) and not bad, where(b), 'the wait can end with %s' % [sorted(x) for x in bad])
        for a in allow:
            ctx.ob('wait-until', '%s ends for %s' % (nm, a), any(a in e for e in ends), where(b), 'the wait never ends although %s' % a)

    # --- result
    def step2(n, s, fs):
        if cont(g, n, ST, POPS):
            return (min(2, s + 1),)
        return (s,)
    reached, trace = run(g, 0, step2)
    for n in ret_values(g):
        if f.ret.startswith('std::pair'):
            t = rv(n)
            for s in list(g.sources(t)):
                if s[0] in ('ctor', 'init') and len(s[2] if s[0] == 'ctor' else s[1]) == 2:
                    t = s
                    break
            args = t[2] if t[0] == 'ctor' else (t[1] if t[0] == 'init' else ())
            if len(args) != 2:
                continue
            for fs, s in reached.get(n.id, ()):
                d = dict(fs)
                v = d.get(args[0], constval(args[0]))
                v = v[1] if isinstance(v, tuple) else v
                if v is None:
                    continue
                ok = s == (1 if v else 0)
                ctx.ob('result-available', nm + (': state returned was taken from the queue' if v else ': no state returned, none consumed'), ok, where(n), 'reports %s but consumed %d states' % (bool(v), s), None if ok else fmt_trace(trace(n, (fs, s))))
            src = {short(q) for q in g.src_calls(args[1])}
            ctx.ob('result-value', nm, 'front' in src, where(n), 'the returned state is not the one taken from the queue')
        elif f.ret != 'void':
            cnt = {s for _, s in reached.get(n.id, ())}
            ctx.ob('result-available', nm, cnt == {1}, where(n), 'returns after consuming %s states' % sorted(cnt))
            ctx.ob('result-value', nm, 'front' in {short(q) for q in g.src_calls(rv(n))}, where(n), 'the returned state is not the one taken from the queue')
    if f.name == 'WaitForState':
        ok = any(v is True and k[0] == 'op' and k[1] == '==' and any(parm_idx(g, x) == 0 for x in k[2:4]) for k, v in must_facts(g).get(g.exit.id, ()))
        ctx.ob('wait-for-state', nm, ok, f.loc(), 'returns before the requested state was seen')
    if f.name == 'WaitForStateOrCustom':
        def step3(n, s, fs):
            if n.kind == 'waitpred':
                return ('waiting',)
            return (s,)

        def edge3(n, m, lab, s):
            if n.kind == 'branch' and lab in (True, False) and not n.d.get('waitpred'):
                key, pol = F.key(n.d['cond'])
                v = lab if pol else not lab
                if key[0] == 'op' and key[1] == '==' and any(parm_idx(g, x) == 0 for x in key[2:4]):
                    return 'found' if v else 'other'
                if key[0] == 'call' and short(key[1]) == 'operator()' and key[2] is not None and custom in parms_in(g, key[2]):
                    return 'custom' if v else ('other' if s == 'custom' else s)
                if fldq(n.d['cond']) == 'std::pair::first' or n.d['cond'][0] == 'fld' and short(n.d['cond'][2]) == 'first':
                    return s if v else 'custom'
            return s
        reached, trace = run(g, 'start', step3, edge3)
        ends = {s for _, s in reached.get(g.exit.id, ())}
        ctx.ob('wait-for-state', nm, bool(ends) and ends <= {'found', 'custom'}, f.loc(), 'returns although neither the requested state was seen nor the condition holds (%s)' % sorted(ends))
