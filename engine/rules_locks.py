"""C21: no deadlock between the library's locks; C29: threads and condition variables."""
from .core import prop, run, Facts, short, fmt_trace, show, sub
from .lib import *
from . import flow

UNITS = None


def lib_fns(ctx):
    for f in ctx.P.fns.values():
        if f.body and f.q.startswith('fair::mq') and 'fmqx_inst' not in f.q:
            yield f


NOINL = lambda f: False
ONLY_TOOLS = lambda f: f.q.startswith('fair::mq::tools::')


def dtor_of(ctx, t):
    t = t.replace('const ', '').rstrip('&* ')
    m = ctx.__dict__.setdefault('dtors', None)
    if m is None:
        m = ctx.dtors = {}
        for f in ctx.P.fns.values():
            if f.kind == 'dtor' and f.body:
                m.setdefault(f.clsq, f)
                m.setdefault(f.cls, f)
    return m.get(t)


def elem_dtors(ctx, t):
    """program destructors run when elements of the (standard) container or smart pointer type `t` are destroyed"""
    out = []
    for q, c in ctx.P.classes.items():
        if not q.startswith('fair::mq'):
            continue
        # the element is owned by value or by unique_ptr
        for pat in ('<' + q + '>', '<' + q + ',', ' ' + q + '>', ' ' + q + ','):
            i = t.find(pat)
            if i >= 0:
                d = dtor_of(ctx, q)
                if d is not None and d not in out:
                    out.append(d)
                break
    return out


class Sum:
    def __init__(self):
        self.acq = {}     # mutex -> (fn, node) where acquired
        self.join = {}    # thread field -> node
        self.wait = {}    # node id -> (node, mutexes of the wait)
        self.user = {}    # node where a user callback runs
        self.sig = {}     # name of the signal -> node where its subscribers run
        self.calls = []   # (node, callee fns)


def first_assignment(g, n):
    """assignment to a local object that was default-constructed and never assigned before"""
    o = strip(n.d['obj']) if n.d.get('obj') is not None else None
    if o is None or o[0] != 'var' or loops_around(g, n):
        return False
    if any(m is not n and m.kind == 'call' and m.d.get('obj') is not None and strip(m.d['obj']) == o and not m.d.get('const') for m in g.nodes):
        return False
    return all(not m.d['args'] for m in g.nodes if m.kind == 'ctor' and m.d.get('target') == o)


def callees(ctx, n, g):
    P = ctx.P
    out = []
    if n.kind == 'call':
        fid = n.d.get('fid')
        f = P.fns.get(fid)
        if f is not None and f.body:
            out.append(f)
        if n.d.get('virt'):
            todo, seen = [fid], set()
            while todo:
                x = todo.pop()
                for o in P.overriders.get(x, []):
                    if o.id not in seen:
                        seen.add(o.id)
                        todo.append(o.id)
                        if o.body:
                            out.append(o)
        nm = short(n.d['q'])
        if not out and n.d.get('cls') and nm in ('erase', 'clear', 'reset', 'operator=', 'pop_back', 'resize', 'assign') and not (nm == 'operator=' and first_assignment(g, n)):
            out += elem_dtors(ctx, n.d['cls'])
    elif n.kind == 'ctor':
        f = P.fns.get(n.d.get('fid'))
        if f is not None and f.body:
            out.append(f)
    elif n.kind == 'dtor':
        d = dtor_of(ctx, n.d['t'])
        v = n.d.get('var')
        if d is not None:
            out.append(d)
        elif v and v[0] == 'var' and g.vinfo.get(v[1], {}).get('n') and not any(
                m.kind == 'call' and v in m.d['args'] and short(m.d['q']) in ('move', 'operator=', 'emplace', 'insert', 'push_back', 'emplace_back') for m in g.nodes):
            out += elem_dtors(ctx, n.d['t'])
    return out


def is_user_call(n):
    return n.kind == 'call' and n.d['q'].startswith('std::function<') and short(n.d['q']) == 'operator()'


NEWTRANS = 'fNewTransitionSignal'


def is_signal_call(n):
    return n.kind == 'call' and short(n.d['q']) == 'operator()' and 'boost::signals2::' in n.d['q']


def thread_starts(ctx):
    """thread (field or local) name -> [body fns]"""
    out = {}
    for f in lib_fns(ctx):
        g = ctx.graph(f, inline=NOINL)
        for n in g.nodes:
            if n.kind == 'ctor' and n.d['t'].startswith('std::thread') and n.d['args']:
                b = thread_body(ctx, g, n.d['args'][0])
                key = None
                for m in g.nodes:
                    if m.kind == 'call' and m.d['q'].startswith('std::thread::operator=') and m.d['args'] and is_ctor_of(g, m.d['args'][0], n):
                        key = fldq(strip(g.resolve(m.d['obj'])))
                if n.d.get('target') is not None:
                    key = key or fldq(strip(n.d['target'])) or ('local in %s' % f.q)
                out.setdefault(key or ('local in %s' % f.q), []).append((b, f, n))
    return out


def is_ctor_of(g, t, n):
    t = g.resolve(t)
    return t and t[0] == 'ctor' and tuple(t[2]) == tuple(n.d['args'])


def thread_body(ctx, g, t):
    t = strip(g.resolve(t))
    while t and t[0] in ('addr', 'deref'):
        t = t[1]
    if t and t[0] == 'fn':
        f = ctx.P.fns.get(t[1])
        return [f] if f is not None else ctx.P.fn(t[2])
    if t and t[0] == 'lam':
        ast, env = g.lams[t[1]] if hasattr(g, 'lams') else ({}, None)
        return [ctx.P.fns[i] for i in ([ast['f']] if 'f' in ast else ast.get('insts', [])) if i in ctx.P.fns]
    return []


def const_fields(ctx):
    """scalar members that are only written by constructors, in the whole program"""
    wr = set()
    fl = set()
    for c in ctx.P.classes.values():
        for f in c['fields']:
            t = f['t'].replace('const ', '')
            if t in ('bool', 'int', 'unsigned int', 'unsigned long', 'unsigned short', 'long') or t.endswith('*') or 'const' in f['t'].split():
                fl.add(c.get('q', c['t']) + '::' + f['n'])
    for f in ctx.P.fns.values():
        if not f.body:
            continue
        g = ctx.graph(f, inline=NOINL)
        for n in g.nodes:
            if n.kind == 'write' and not (f.kind == 'ctor' and n.d.get('op') == 'init'):
                for s in sub(n.d['lhs']):
                    if s[0] == 'fld':
                        wr.add(s[2])
                r = g.resolve(n.d['lhs'])
                if r is not None and r[0] == 'fld':
                    wr.add(r[2])
            if n.kind in ('call', 'ctor', 'new'):
                for a, pt in zip(n.d.get('args') or (), n.d.get('pt') or ()):
                    if ('&' in pt or '*' in pt) and not pt.startswith('const '):
                        for s in sub(a):
                            if s[0] == 'fld':
                                wr.add(s[2])
            if n.kind in ('decl', 'write', 'ret'):
                r = n.d.get('rhs') or n.d.get('term')
                for s in sub(r) if r else ():
                    if s[0] == 'addr':
                        for x in sub(s):
                            if x[0] == 'fld':
                                wr.add(x[2])
    return fl - wr


def summarise(ctx):
    S = {}
    for f in lib_fns(ctx):
        s = S[f.id] = Sum()
        g = s.g = ctx.graph(f, inline=NOINL)
        s.fn = f
        s.held = may_locks(g)
        for n in g.nodes:
            if n.id not in g.live:
                continue
            for e, gv, m in lock_effect(g, n):
                if e == 'acq':
                    s.acq.setdefault(m, n)
                elif e == 'acqvar':
                    for x in g.nodes:
                        for e2, gv2, m2 in lock_effect(g, x):
                            if e2 == 'bind' and gv2 == gv:
                                s.acq.setdefault(m2, n)
            if n.kind == 'call' and n.d.get('cls', '').startswith('std::thread') and short(n.d['q']) == 'join':
                s.join[fldq(strip(g.resolve(n.d['obj']))) or ('local in %s' % f.q)] = n
            if n.kind == 'call' and n.d.get('cls', '').startswith('std::condition_variable') and short(n.d['q']).startswith('wait'):
                s.wait[n.id] = n
            if is_user_call(n):
                s.user.setdefault('cb', n)
            if is_signal_call(n):
                q = fldq(strip(g.resolve(n.d['obj']))) if n.d.get('obj') is not None else None
                s.sig.setdefault(q or 'events', n)
            cs = [c for c in callees(ctx, n, g) if c.id != f.id]
            if cs:
                s.calls.append((n, cs))
    return S


def closure(S):
    """transitive effects: fn id -> {('acq', mutex)|('join', thread)|('wait', mutexes)|('user',): chain of nodes}"""
    T = {}
    for i, s in S.items():
        t = T[i] = {}
        for m, n in s.acq.items():
            t[('acq', m)] = (n,)
        for j, n in s.join.items():
            t[('join', j)] = (n,)
        for n in s.wait.values():
            t[('wait', wait_mutex(s.g, n))] = (n,)
        for n in s.user.values():
            t[('user',)] = (n,)
        for k, n in s.sig.items():
            t[('sig', k)] = (n,)
    ch = True
    while ch:
        ch = False
        for i, s in S.items():
            t = T[i]
            for n, cs in s.calls:
                for c in cs:
                    for k, w in T.get(c.id, {}).items():
                        if k[0] == 'wait':
                            k = ('wait', given(s.g, n, k[1]))
                        if k not in t:
                            t[k] = (n,) + w
                            ch = True
    return T


def wait_mutex(g, n):
    return lock_mutex(g, n.d['args'][0] if n.d['args'] else None)


def lock_mutex(g, a):
    """the mutexes of a lock object; '#i' for the lock given as parameter i"""
    out = set()
    i = parm_idx(g, a) if a is not None else None
    if i is not None:
        out.add('#%d' % i)
    if a is not None:
        for x in g.nodes:
            for e, gv, m in lock_effect(g, x):
                if e == 'bind' and (gv == a or strip(g.resolve(a)) == strip(g.resolve(gv))):
                    out.add(m)
    return tuple(sorted(out))


def given(s, n, ms):
    """the mutexes a callee waits with, seen from the caller that gave it its lock"""
    out = set()
    for m in ms:
        if m.startswith('#'):
            a = n.d.get('args') or ()
            i = int(m[1:])
            out |= set(lock_mutex(s, a[i]) if i < len(a) else ())
        else:
            out.add(m)
    return tuple(sorted(out))


def wait_mutexes(ctx, f, g, n, depth=0):
    """wait_mutex, locks given by the callers resolved"""
    out = set()
    todo = [(f, m, 0) for m in wait_mutex(g, n)]
    while todo:
        h, m, d = todo.pop()
        if not m.startswith('#'):
            out.add(m)
        elif d < 4:
            for c in lib_fns(ctx):
                if c is h or not any(x.get('f') == h.id for x in ctx.P.calls(c)):
                    continue
                cg = ctx.graph(c, inline=NOINL)
                for x in cg.nodes:
                    if x.kind == 'call' and x.d.get('fid') == h.id and x.id in cg.live:
                        todo += [(c, y, d + 1) for y in given(cg, x, (m,))]
    return out


def show_chain(w):
    return ['%s:%s %s' % (where(n)[0] if isinstance(where(n), tuple) else where(n), '', n.d.get('q') or n.kind) for n in w][:10]


@prop('C21', UNITS)
def c21(ctx):
    """lock order, joins and waits"""
    S = summarise(ctx)
    T = closure(S)
    ctx.P_locks = (S, T)
    muts = sorted({m for s in S.values() for m in s.acq})
    own = [m for m in muts if m and m.startswith('fair::mq')]
    if len(own) < 10:
        ctx.broken('only %d mutexes of the library are locked anywhere' % len(own))
    order = {}    # (held, acquired) -> (fn, node, chain)
    for i, s in S.items():
        for n in s.g.nodes:
            if n.id not in s.g.live:
                continue
            H = s.held.get(n.id) or ()
            if not H:
                continue
            for e, gv, m in lock_effect(s.g, n):
                ms = [m] if e == 'acq' else [m2 for x in s.g.nodes for e2, g2, m2 in lock_effect(s.g, x) if e2 == 'bind' and g2 == gv] if e == 'acqvar' else []
                for mm in ms:
                    for h in H:
                        order.setdefault((h, mm), (s.fn, n, ()))
        for n, cs in s.calls:
            if n.id not in s.g.live:
                continue
            H = s.held.get(n.id) or ()
            for c in cs:
                for k, w in T.get(c.id, {}).items():
                    for h in H:
                        if k[0] == 'acq':
                            order.setdefault((h, k[1]), (s.fn, n, w))
    # a second mutex is only taken in one global order
    succ = {}
    for (a, b) in order:
        succ.setdefault(a, set()).add(b)

    def reach(a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False
    for (a, b), (f, n, w) in sorted(order.items(), key=lambda x: (x[0][0] or '', x[0][1] or '')):
        inst = '%s then %s' % (short_f(a or '?'), short_f(b or '?'))
        if a == b:
            ctx.bad('lock-order', inst, where(n), '%s locks a mutex it may already hold' % f.q, show_chain((n,) + w))
        elif reach(b, a):
            f2, n2, w2 = order.get((b, a), (None, None, ()))
            ctx.bad('lock-order', inst, where(n), '%s locks %s while holding %s, and %s takes them in the opposite order' % (
                f.q, short_f(b), short_f(a), f2.q if f2 else 'another path'), show_chain((n,) + w) + (['opposite:'] + show_chain((n2,) + w2) if n2 is not None else []))
        else:
            ctx.good('lock-order', inst)
    for m in own:
        ctx.good('mutex', short_f(m))
    # waiting for a thread: nothing it needs is held
    starts = thread_starts(ctx)
    if len(starts) < 8:
        ctx.broken('only %d thread starts found' % len(starts))
    body = {}
    for k, l in starts.items():
        e = body.setdefault(k, {})
        for b, f, n in l:
            for x in b:
                e.update({kk: w for kk, w in T.get(x.id, {}).items()})

    def joins(s):
        for j, n in s.join.items():
            yield j, n, ()
        for n, cs in s.calls:
            for c in cs:
                for k, w in T.get(c.id, {}).items():
                    if k[0] == 'join':
                        yield k[1], n, w
    seen = {}
    for i, s in S.items():
        for j, n, w in joins(s):
            if n.id not in s.g.live:
                continue
            H = s.held.get(n.id) or frozenset()
            b = body.get(j, {})
            bad = None
            for h in H:
                if ('acq', h) in b:
                    bad = 'joined by %s while holding %s, which the thread locks' % (s.fn.q, short_f(h))
                elif ('user',) in b:
                    bad = 'joined by %s while holding %s; the thread runs user callbacks, which may use the library' % (s.fn.q, short_f(h))
            inst = '%s in %s' % (short_f(j), short_f(s.fn.q))
            if bad:
                seen[inst] = (False, n, bad, w)
            else:
                seen.setdefault(inst, (True, n, '', w))
    for inst, (ok, n, msg, w) in sorted(seen.items()):
        if ok:
            ctx.good('join', inst)
        else:
            ctx.bad('join', inst, where(n), msg, show_chain((n,) + w))
    callbacks(ctx, S, starts)
    signals(ctx, S, T)
    # waiting on a condition variable: only its own mutex is held
    for i, s in S.items():
        for n in s.wait.values():
            if n.id not in s.g.live:
                continue
            mine = set(wait_mutex(s.g, n))
            extra = (s.held.get(n.id) or frozenset()) - mine
            ctx.ob('wait', '%s line of %s' % (short_f(s.fn.q), fldq(strip(s.g.resolve(n.d['obj']))) or '?'), not extra, where(n), 'waits while also holding %s' % ', '.join(map(str, extra)))
        for n, cs in s.calls:
            H = s.held.get(n.id) or frozenset()
            if not H or n.id not in s.g.live:
                continue
            for c in cs:
                for k, w in T.get(c.id, {}).items():
                    if k[0] == 'wait' and H - set(given(s.g, n, k[1])):
                        ctx.ob('wait', '%s calls %s' % (short_f(s.fn.q), short_f(c.q)), False, where(n), 'waits on a condition variable (%s) while the caller holds %s' % (
                            ', '.join(map(str, k[1])), ', '.join(map(str, H))), show_chain((n,) + w))


# ------------------------------------------------------------------ C29 threads and condition variables
def join_letters(g, K):
    """'j' at the join of thread field K; edge letter 'n' where K is known not joinable"""
    def is_k(t):
        return t is not None and fldq(strip(g.resolve(t))) == K

    def cl(n):
        if n.kind == 'call' and n.d.get('obj') is not None and is_k(n.d['obj']):
            nm = short(n.d['q'])
            if nm in ('join', 'detach'):
                return 'j' if nm == 'join' else 'd'
            if nm == 'operator=':
                return 'a'
        return None
    jc = [n for n in g.nodes if n.kind == 'call' and short(n.d['q']) == 'joinable' and n.d.get('obj') is not None and is_k(n.d['obj'])]
    return cl, jc


def call_edge(g, calls, yes, no):
    F = Facts(g)
    terms = {c.d['term'] for c in calls}

    def ed(n, m, lab):
        if n.kind != 'branch' or lab not in (True, False) or not terms:
            return None
        key, pol = F.key(n.d['cond'])
        hit = key in terms or strip(g.resolve(key)) in terms or key[0] == 'var' and any(s in terms for s in g.sources(key))
        if not hit:
            return None
        return yes if lab == pol else no
    return ed


def fact_edge(g, fields):
    """edge letters from branches on bool fields: {(field, value): letter}"""
    F = Facts(g)

    def ed(n, m, lab):
        if n.kind != 'branch' or lab not in (True, False):
            return None
        key, pol = F.key(n.d['cond'])
        q = fldq(strip(key))
        v = (lab == pol)
        return fields.get((q, v))
    return ed


def bool_flags(ctx, cls):
    try:
        c = ctx.cls(cls)
    except Exception:
        return set()
    return {cls + '::' + f['n'] for f in c['fields'] if f['t'] in ('bool', 'std::atomic<bool>', 'std::atomic_bool', 'volatile bool')}


def flag_const(g, n, flags):
    """(field, value) for a write of a constant to one of the bool fields"""
    if n.kind == 'write':
        q = fldq(strip(n.d['lhs'])) if n.d.get('lhs') is not None else None
        if q in flags:
            v = cval(g, n.d['rhs']) if n.d.get('rhs') is not None else None
            return q, (bool(v) if v is not None else None)
    if n.kind == 'call' and n.d.get('obj') is not None and short(n.d['q']) in ('store', 'operator=') and n.d['args']:
        q = fldq(strip(g.resolve(n.d['obj'])))
        if q in flags:
            v = cval(g, n.d['args'][0])
            return q, (bool(v) if v is not None else None)
    return None


def exit_reachable(g, q, v):
    """can the function return when the flag field q reads as v every time?"""
    F = Facts(g)

    def ed(n, m, lab, s):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            if fldq(strip(g.resolve(key))) == q or fldq(strip(key)) == q:
                if (lab == pol) != v:
                    return None
        return s
    reached, _ = run(g, 0, lambda n, s, fs: (s,), ed, facts=False)
    return g.exit.id in reached


def reads_flag(g, q):
    F = Facts(g)
    for n in g.nodes:
        if n.kind == 'branch':
            key, _ = F.key(n.d['cond'])
            if fldq(strip(g.resolve(key))) == q or fldq(strip(key)) == q:
                return True
    return False


@prop('C29', UNITS)
def c29(ctx):
    """threads are joined, stopped and woken"""
    flow.CONST_FIELDS |= const_fields(ctx)
    starts = thread_starts(ctx)
    fields = sorted(k for k in starts if k.startswith('fair::mq'))
    if len(fields) < 7:
        ctx.broken('only %d thread members found' % len(fields))
    for K in fields:
        thread_member(ctx, K, starts[K])
    for K, l in sorted(starts.items()):
        if not K.startswith('fair::mq'):
            for b, f, n in l:
                local_thread(ctx, f)
    for q in ('fair::mq::Device::RunWrapper',):
        for f in ctx.fns(q):
            local_thread(ctx, f)
    cvs(ctx)


def thread_member(ctx, K, l):
    cls = K.rsplit('::', 1)[0]
    kn = short_f(K)
    bodies = []
    for b, f, n in l:
        for x in b:
            if x not in bodies:
                bodies.append(x)
    # the owner's destructor joins it on every path
    d = dtor_of(ctx, cls)
    if d is None:
        ctx.bad('joined', kn, l[0][1].loc(), 'a thread is kept in %s, which has no destructor that joins it' % K)
        return
    flags = bool_flags(ctx, cls)
    g = ctx.graph(d)
    cl, jc = join_letters(g, K)
    ce = call_edge(g, jc, 'J', 'n')
    # only a controlling region starts a receiver (decided by C23)
    extra = fact_edge(g, {('fair::mq::shmem::UnmanagedRegion::fControlling', False): 'v'}) if kn.endswith('fAcksReceiver') else None

    def ed(n, m, lab):
        r = ce(n, m, lab)
        if r is None and extra is not None:
            r = extra(n, m, lab)
        return r
    lang(ctx, 'joined', '%s by ~%s' % (kn, cls.split('::')[-1]), g, cl, '.*(j|n|v).*', edge=ed,
         legend='j=join, n=not joinable, a=started, d=detached')
    # a running thread is never overwritten
    for f in {f.id: f for b, f, n in l}.values():
        g = ctx.graph(f)
        cl, jc = join_letters(g, K)
        if cls == 'fair::mq::shmem::Monitor':
            continue    # the monitor tool's main() installs its signal handler once
        if f.kind == 'ctor':
            lang(ctx, 'started-once', '%s in %s' % (kn, short_f(f.q)), g, lambda n: 'a' if cl(n) == 'a' else None, 'a?', legend='a=started')
        else:
            lang(ctx, 'started-once', '%s in %s' % (kn, short_f(f.q)), g, cl, '([jJ n]* (j|n) [J]* a)* [jJn]*'.replace(' ', ''), edge=call_edge(g, jc, 'J', 'n'),
                 legend='a=started, j=join, n=not joinable, J=joinable')
    # which flags end the body
    ends = {}
    for b in bodies:
        g = ctx.graph(b)
        for q in flags:
            if reads_flag(g, q):
                t, f_ = exit_reachable(g, q, True), exit_reachable(g, q, False)
                if t != f_:
                    ends.setdefault(q, set()).add(t)
    if not bodies:
        ctx.broken('body of thread %s not found' % K)
    looping = False
    for b in bodies:
        g = ctx.graph(b)
        if any(n.kind == 'branch' and n.d.get('loop') for n in g.nodes):
            looping = True
    # every join is preceded by telling the thread to stop
    for f in lib_fns(ctx):
        if f.clsq != cls and f.cls != cls:
            continue
        if f.kind == 'lambda' or f in bodies:
            continue
        g0 = ctx.graph(f)
        cl0, jc0 = join_letters(g0, K)
        js = [n for n in g0.nodes if cl0(n) == 'j' and n.fn is f and n.id in g0.live]
        if not js or not ends:
            continue

        def cl(n):
            w = flag_const(g0, n, flags)
            if w and w[0] in ends and w[1] is not None:
                return 's' if {w[1]} == ends[w[0]] else 'r'
            c = cl0(n)
            return {'j': 'j', 'a': 'r'}.get(c)
        lang(ctx, 'stopped-first', '%s in %s' % (kn, short_f(f.q)), g0, cl, '(r|s[sj]*)*', legend='s=stop flag set, j=join, r=flag reset or thread started')


def local_thread(ctx, f):
    g = ctx.graph(f, inline=ONLY_TOOLS)

    def th(n):
        return n.kind == 'ctor' and n.d['t'].startswith('std::thread') and n.d['args'] or \
            n.kind == 'call' and short(n.d['q']) in ('make_unique', 'make_shared') and 'std::thread' in n.d.get('t', '')
    starts = [n for n in g.nodes if th(n) and n.fn is f and not keeps(g, n)]
    if not starts:
        return
    jl = set()
    for n in g.nodes:
        if n.kind == 'call' and n.d.get('cls', '').startswith('std::thread') and short(n.d['q']) == 'join':
            for b, _ in loops_around(g, n):
                jl.add(b.id)
    jc = [n for n in g.nodes if n.kind == 'call' and n.d.get('cls', '').startswith('std::thread') and short(n.d['q']) == 'joinable']
    ce = call_edge(g, jc, None, 'j')

    def cl(n):
        if n in starts:
            return 't'
        if n.kind == 'call' and n.d.get('cls', '').startswith('std::thread') and short(n.d['q']) in ('join', 'detach'):
            return 'j' if short(n.d['q']) == 'join' else 'd'
        return None

    def ed(n, m, lab):
        r = ce(n, m, lab)
        if r:
            return r
        if n.id in jl and n.kind == 'branch' and lab is False:
            return 'j'
        return None
    lang(ctx, 'joined', 'thread started by %s' % short_f(f.q), g, cl, 'j*(t[tj]*j)?', edge=ed, legend='t=started, j=joined',
         keep=lambda k: k[0] == 'fld' and (k[1][0] == 'var' or k[2] in flow.CONST_FIELDS) or k[0] == 'var' and not k[2].startswith('ret:'))


def keeps(g, n):
    """the started thread is moved into a member"""
    for m in g.nodes:
        if m.kind == 'call' and m.d['q'].startswith('std::thread::operator=') and m.d['args'] and is_ctor_of(g, m.d['args'][0], n):
            return fldq(strip(g.resolve(m.d['obj']))) is not None
    return n.d.get('target') is not None and fldq(strip(n.d['target'])) is not None


# -- a waiting thread is told about every change that can end its wait
def pred_fields(ctx, f, g, n):
    """[(field, kind)] the wait of node n depends on: its predicate lambda, or the loop condition around it"""
    out = {}
    lams = [a for a in n.d['args'] if a and a[0] == 'lam']
    if lams:
        ast, env = g.lams[lams[0][1]]
        for fid in ([ast['f']] if 'f' in ast else ast.get('insts', [])):
            lf = ctx.P.fns.get(fid)
            if lf is not None:
                g2 = ctx.graph(lf, reads=(lambda q: True))
                for x in g2.nodes:
                    if x.kind in ('acc', 'aload'):
                        q = x.d.get('q') or fldq(strip(x.d['term']))
                        if q and q.startswith('fair::mq'):
                            out[q] = lf
    elif short(n.d['q']) == 'wait':
        for h, body in loops_around(g, n):
            for b in g.nodes:
                if b.kind != 'branch' or b.id not in body or all(m.id in body for m, _ in b.succ):
                    continue
                for x in walk(b.d['cond']):
                    q = fldq(x) if isinstance(x, tuple) else None
                    if q and q.startswith('fair::mq'):
                        out[q] = None
    return out


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                for y in walk(x):
                    yield y


def lam_results(ctx, lf, q, v):
    """possible results of the predicate when the bool field q reads as v"""
    g = ctx.graph(lf)
    F = Facts(g)

    def isq(t):
        key, pol = F.key(t)
        return pol if fldq(strip(key)) == q or fldq(strip(g.resolve(key))) == q else None

    def val(t):
        c = cval(g, t)
        if c is not None:
            return frozenset([bool(c)])
        p = isq(t)
        if p is not None:
            return frozenset([p == v])
        return frozenset([True, False])

    def step(n, s, fs):
        if n.kind == 'write' and n.d['lhs'][0] == 'var' and n.d.get('rhs') is not None and n.d.get('ret'):
            return (val(n.d['rhs']),)
        if n.kind == 'ret' and not s and rv(n) is not None:
            return (val(rv(n)),)
        return (s,)

    def ed(n, m, lab, s):
        if n.kind == 'branch' and lab in (True, False):
            p = isq(n.d['cond'])
            if p is not None and (lab == p) != v:
                return None
        return s
    reached, _ = run(g, frozenset(), step, ed)
    out = set()
    for fs, s in reached.get(g.exit.id, ()):
        out |= s or {True, False}
    return out


def lam_value(ctx, lf, q, v):
    """can q becoming v make the predicate true?"""
    a, b = lam_results(ctx, lf, q, v), lam_results(ctx, lf, q, not v)
    return a == b or True in a and (False not in a or True not in b)


ENABLE = ('reset', 'push', 'emplace', 'push_back', 'emplace_back', 'operator=', 'insert', 'push_front', 'clear', 'store', 'swap')


def cvs(ctx):
    waits = {}
    for f in lib_fns(ctx):
        g = ctx.graph(f, inline=NOINL)
        for n in g.nodes:
            if n.kind == 'call' and n.d.get('cls', '').startswith('std::condition_variable') and short(n.d['q']).startswith('wait') and n.id in g.live:
                cv = fldq(strip(g.resolve(n.d['obj'])))
                mt = wait_mutexes(ctx, f, g, n)
                pf = pred_fields(ctx, f, g, n)
                timed = short(n.d['q']) != 'wait'
                ctx.ob('wait-condition', '%s in %s' % (short_f(cv or '?'), short_f(f.q)), bool(pf) or timed or any(a and a[0] == 'lam' for a in n.d['args']), where(n),
                       'waits without a time limit and without a condition: a notification sent before the wait, or a spurious wake-up, is mistaken for the event')
                for q, lf in pf.items():
                    w = waits.setdefault((cv, q), [set(mt), lf, f])
                    w[0] |= set(mt)
    if len(waits) < 6:
        ctx.broken('only %d wait conditions found' % len(waits))
    for (cv, q), (mts, lf, wf) in sorted(waits.items(), key=str):
        if q.startswith('fair::mq::fsm::'):
            continue    # written inside the state machine back-end, under ChangeState's lock: decided by C02
        changes(ctx, cv, q, mts, lf, wf)


def changes(ctx, cv, q, mts, lf, wf):
    cls = q.rsplit('::', 1)[0]
    n_ok = 0
    seen = {}
    for f in lib_fns(ctx):
        if f.kind in ('ctor', 'dtor') and f.clsq == cls and f.kind == 'ctor':
            continue
        g = ctx.graph(f, inline=NOINL)
        for n in g.nodes:
            if n.id not in g.live:
                continue
            en = enabling(ctx, g, n, q, lf)
            if not en:
                continue
            ok, msg = changed_ok(ctx, f, g, n, cv, mts, 0)
            inst = '%s changed in %s' % (short_f(q), short_f(f.q))
            if inst not in seen or not ok:
                seen[inst] = (ok, n, msg)
    for inst, (ok, n, msg) in sorted(seen.items()):
        ctx.ob('wakes', inst, ok, where(n), msg)
    if not seen:
        ctx.bad('wakes', '%s for %s' % (short_f(q), short_f(wf.q)), wf.loc(), '%s waits for %s, which nothing ever changes' % (wf.q, short_f(q)))


def enabling(ctx, g, n, q, lf):
    if n.kind == 'write':
        if lf is not None and n.d.get('rhs') is not None and empty_value(g, n.d['rhs']):
            return False
        l = strip(n.d['lhs'])
        if fldq(l) != q and not (rooted(g, n.d['lhs'], q) if l[0] != 'var' else False):
            return False
        if n.d.get('op') in ('--', '-='):
            return False
        v = cval(g, n.d['rhs']) if n.d.get('rhs') is not None and n.d.get('op') == '=' else None
        if v is not None and lf is not None and isinstance(v, (bool, int)):
            return lam_value(ctx, lf, q, bool(v))
        if v is None and n.d.get('op') == '=' and lf is None and not is_reset(g, n.d['rhs']):
            return False
        return True
    if n.kind == 'call' and n.d.get('obj') is not None and not n.d.get('const'):
        if not rooted(g, n.d['obj'], q):
            return False
        nm = short(n.d['q'])
        if nm not in ENABLE:
            return False
        if lf is None and nm == 'operator=':      # while (x) wait: only losing the value ends the wait
            return any(is_reset(g, a) for a in n.d['args'])
        if lf is not None and (nm in ('clear', 'reset') or nm == 'operator=' and n.d['args'] and empty_value(g, n.d['args'][0])):
            return False
        if nm in ('operator=', 'store') and n.d['args'] and lf is not None:
            v = cval(g, n.d['args'][0])
            if v is not None:
                return lam_value(ctx, lf, q, bool(v))
        return True
    return False


def empty_value(g, t):
    t = strip(g.resolve(t))
    return bool(t) and t[0] in ('ctor', 'init') and not t[2 if t[0] == 'ctor' else 1]


def is_reset(g, t):
    s = show(g.resolve(t))
    return 'none' in s or 'nullopt' in s or s in ('{}', 'optional{}')


def changed_ok(ctx, f, g, n, cv, mts, depth):
    """the change at node n happens under the mutex of the wait and is announced on every path out (here or, if f is private
    and does neither, by every caller)"""
    ml = must_locks(g).get(n.id, ())
    lk = bool(set(ml) & mts)

    def is_n(x):
        return x.kind == 'call' and short(x.d['q']) in ('notify_one', 'notify_all') and x.d.get('obj') is not None and fldq(strip(g.resolve(x.d['obj']))) == cv or calls_notify(ctx, x, cv)
    miss = paths_missing(g, lambda x: x is n, is_n)
    nt = not miss
    if lk and nt:
        return True, ''
    msg = 'changed without the mutex the waiting thread uses' if not lk else 'a path returns without notifying %s' % short_f(cv)
    if depth < 3:
        cs = [(h, gh, m) for h in lib_fns(ctx) if h.id != f.id for gh in [ctx.graph(h, inline=NOINL)] for m in gh.nodes
              if m.kind == 'call' and m.d.get('fid') == f.id and m.id in gh.live]
        if cs:
            for h, gh, m in cs:
                ml2 = must_locks(gh).get(m.id, ())
                lk2 = lk or bool(set(ml2) & mts)
                nt2 = nt or not paths_missing(gh, lambda x: x is m, lambda x: x.kind == 'call' and short(x.d['q']) in ('notify_one', 'notify_all') and x.d.get('obj') is not None and fldq(strip(gh.resolve(x.d['obj']))) == cv)
                if not (lk2 and nt2):
                    return False, msg + ' (called from %s)' % h.q
            if f.acc != 'public' or True:
                return True, ''
    return False, msg


def calls_notify(ctx, x, cv):
    if x.kind != 'call':
        return False
    f = ctx.P.fns.get(x.d.get('fid'))
    if f is None or not f.body:
        return False
    g = ctx.graph(f, inline=NOINL)
    return not paths_missing(g, lambda n: n is g.entry, lambda n: n.kind == 'call' and short(n.d['q']) in ('notify_one', 'notify_all') and n.d.get('obj') is not None and fldq(strip(g.resolve(n.d['obj']))) == cv)


def callbacks(ctx, S, starts):
    """user callbacks run without a mutex that other operations of the library need"""
    direct = {}    # mutex -> fns locking it
    for s in S.values():
        for m in s.acq:
            direct.setdefault(m, []).append(s.fn)
    bodies = {x.id: k for k, l in starts.items() for b, f, n in l for x in b}
    for s in S.values():
        for n in s.g.nodes:
            if not is_user_call(n) or n.id not in s.g.live:
                continue
            q = fldq(strip(s.g.resolve(n.d['obj']))) if n.d.get('obj') is not None else None
            if not q or not q.startswith('fair::mq'):
                continue
            bad = None
            for h in s.held.get(n.id) or ():
                for f in direct.get(h, []):
                    if f.id == s.fn.id:
                        continue
                    k = bodies.get(s.fn.id)
                    # stopping the very thread that runs the callback is not possible from within it anyway
                    if k is not None and k in S[f.id].join:
                        continue
                    bad = 'the callback runs while %s is held, which %s locks' % (short_f(h), f.q)
            ctx.ob('callback', '%s in %s' % (short_f(q), short_f(s.fn.q)), bad is None, where(n), bad or '')


def signals(ctx, S, T):
    """subscribers of events run without a mutex that subscribing or changing properties and states needs.
    (a listener to new transitions runs as part of the request, with the state locked: it is told before the request is answered)"""
    direct = {}
    for s in S.values():
        for m in s.acq:
            direct.setdefault(m, set()).add(s.fn.q)
    n0 = 0
    seen = set()
    for s in S.values():
        here = [(n, k, (n,)) for k, n in s.sig.items()]
        here += [(n, k[1], (n,) + w) for n, cs in s.calls for c in cs for k, w in T.get(c.id, {}).items() if k[0] == 'sig']
        for n, k, w in here:
            if k.endswith('::' + NEWTRANS) or n.id not in s.g.live:
                continue
            n0 += 1
            bad = None
            for h in s.held.get(n.id) or ():
                if direct.get(h):
                    bad = 'subscribers run while %s is held, which %s locks' % (short_f(h), sorted(direct[h])[0])
            key = (s.fn.q, k, bad)
            if key in seen:
                continue
            seen.add(key)
            ctx.ob('callback', 'subscribers of %s called in %s' % (short_f(k), short_f(s.fn.q)), bad is None, where(n), bad or '')
