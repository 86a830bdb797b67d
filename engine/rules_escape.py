"""C30: exceptions of the library never end the process"""
from .core import prop, Facts, short, show
from .lib import *
from .core import sub, run
from .rules_channel import lam_fn
from .rules_plugins import strv
from .rules_locks import lib_fns, thread_starts, thread_body, NOINL

COD = 'fair::mq::tools::CallOnDestruction'


def escape(g, n):
    """how an exception thrown at n ends: set of 'excexit' / 'terminate', and the nodes on the way"""
    seen, st, out = {}, [(m, n) for m, l in n.succ], {}
    while st:
        m, p = st.pop()
        if m.id in seen:
            continue
        seen[m.id] = p
        if m.kind in ('excexit', 'terminate'):
            out[m.kind] = m
        elif m.kind == 'catch':
            pass
        elif m.kind in ('unwind', 'dtor', 'leave'):
            st += [(x, m) for x, l in m.succ]
        else:
            st += [(x, m) for x, l in m.succ if l != 'exc']
    return out


def defaulted(ctx):
    """options the library defines with a default value"""
    out = set()
    for f in lib_fns(ctx):
        g = ctx.graph(f, inline=NOINL)
        for n in g.nodes:
            if n.kind == 'call' and 'options_description_easy_init' in n.d['q'] and len(n.d['args']) >= 2:
                k = strv(g.resolve(n.d['args'][0]))
                if k and any(y[0] == 'call' and short(y[1]) == 'default_value' for y in sub(g.resolve(n.d['args'][1]))):
                    out.add(k.split(',')[0])
    return out


@prop('C30', None)
def c30(ctx):
    """no exception thrown by the library leaves a thread, a destructor or a noexcept function"""
    roots = []
    for f in lib_fns(ctx):
        if f.kind == 'dtor' or f.ne:
            roots.append((f, '%s%s' % (f.q, '' if f.kind == 'dtor' else '(%s)' % ', '.join(p['t'].split('::')[-1] for p in f.params))))
    for k, v in thread_starts(ctx).items():
        for bs, f, n in v:
            if not bs:
                ctx.ob('thread', 'thread %s started at %s' % (k, where(n)), False, where(n), 'unknown thread function')
            for b in bs or []:
                roots.append((b, 'thread %s: %s' % (k, b.q if b.kind != 'lambda' else 'function at %s' % b.loc())))
    # functions run by destructors, handed to C libraries or run at signals
    for f in lib_fns(ctx):
        g = ctx.graph(f, inline=NOINL)
        for n in g.nodes:
            if n.id not in g.live:
                continue
            if n.kind == 'call' and (short(n.d['q']) in ('emplace_back', 'push_back', 'emplace') and '<std::thread' in n.d['q'] or short(n.d['q']) in ('make_unique', 'make_shared', 'async') and ('std::thread' in str(n.d['t']) or short(n.d['q']) == 'async')) and n.d['args']:
                bs = thread_body(ctx, g, n.d['args'][0])
                ctx.ob('thread', 'thread started at %s' % where(n), bool(bs) or '(ctor' in str(n.d['args'][0]) or strip(n.d['args'][0])[0] == 'var', where(n), 'unknown thread function')
                for b in bs or []:
                    roots.append((b, 'thread started at %s: %s' % (where(n), b.q if b.kind != 'lambda' else 'function')))
            if n.kind == 'ctor' and n.d['t'].startswith(COD) and n.d['args']:
                lf = lam_fn(ctx, g, n.d['args'][0])
                if lf is not None:
                    roots.append((lf, 'on destruction at %s' % where(n)))
            if n.kind == 'call' and n.d['q'] in ('zmq_msg_init_data', 'signal', 'std::signal', 'atexit', 'std::atexit', 'sigaction'):
                for a in n.d['args']:
                    t = strip(g.resolve(a))
                    while t[0] in ('addr', 'deref'):
                        t = strip(t[1])
                    lf = ctx.P.fns.get(t[1]) if t[0] == 'fn' else lam_fn(ctx, g, t) if t[0] == 'lam' else None
                    if lf is not None and lf.body:
                        roots.append((lf, 'handed to %s at %s' % (n.d['q'], where(n))))
    opts = defaulted(ctx)
    seen = set()
    for f, what in roots:
        if f.id in seen or not f.body:
            continue
        seen.add(f.id)
        rule = 'thread' if what.startswith('thread') else 'destructor' if f.kind == 'dtor' else 'callback' if ' at ' in what else 'noexcept'
        g = ctx.graph(f)
        bad = []
        for n in g.nodes:
            if n.id in g.live and n.kind == 'throw':
                e = escape(g, n)
                if e and not (has_default(g, n, opts)):
                    bad.append(n)
        # may the throw be reached at all?
        if bad and len(g.nodes) < 3000:
            reached, tr = run(g, 0, lambda n, s, fs: iter((s,)))
            bad = [n for n in bad if n.id in reached]
        ctx.ob(rule, what, not bad, where(bad[0]) if bad else f.loc(), 'an exception (%s) thrown here leaves it: the process is terminated' % (bad[0].d.get('t') or 'rethrown') if bad else '')


def has_default(g, n, opts):
    """the property read is an option with a default value"""
    if n.fn.q != 'fair::mq::ProgOptions::GetProperty':
        return False
    for m in g.nodes:
        if m.kind == 'enter' and m.d['fn'] is n.fn and m.d.get('call') is not None:
            if any(x is n for x in within(m)):
                k = strv(g.resolve(m.d['call'].d['args'][0]))
                if k is None:
                    return False
                return k in opts
    return False


def within(enter):
    """the nodes of an inlined call"""
    seen, st = set(), [enter]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.kind == 'leave' and x.d.get('fn') is enter.d['fn']:
            continue
        st += [m for m, l in x.succ]
