"""C08 property types, C09 property store."""
import re
from .core import prop, Facts, short, fmt_trace, show, sub, run
from .lib import *
from .rules_state import enum_vals

PH = 'fair::mq::PropertyHelper'
INFO, EMIT = PH + '::fTypeInfos', PH + '::fEventEmitters'
PO = 'fair::mq::ProgOptions'
VM, MTX, EV = PO + '::fVarMap', PO + '::fMtx', PO + '::fEvents'
EM = 'fair::mq::EventManager'


def simple_type(t):
    """type name as FairMQ labels it"""
    t = t.replace('std::__cxx11::', 'std::')
    t = re.sub(r'std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string', t)
    t = re.sub(r', std::allocator<[^<>]*>(?=>)', '', t)
    t = re.sub(r'std::vector<', 'vector<', t)
    for a, b in (('unsigned int', 'unsigned'), ('unsigned long long', 'unsigned long long'), ('const char *', 'string')):
        t = t.replace(a, b)
    return t.strip()


def table(ctx, q):
    v = ctx.P.vars.get(q)
    if not v or v.get('init') is None:
        ctx.broken('table %s not found' % q)
    out = {}
    from .prog import walk
    for x in walk(v['init']):
        if x.get('k') == 'ctor' and x.get('cls', '').startswith('std::pair<') and len(x.get('a', [])) == 2:
            ty = [y['at'] for y in walk(x['a'][0]) if y.get('k') == 'typeid']
            lam = [y['f'] for y in walk(x['a'][1]) if y.get('k') == 'lambda' and 'f' in y]
            ref = [y['f'] for y in walk(x['a'][1]) if y.get('k') in ('ref', 'fnref') and y.get('f')]
            if len(ty) == 1:
                f = ctx.P.fns.get((lam or ref or [None])[0])
                if f is None:
                    ctx.broken('entry of %s for %s has no analysable function' % (short(q), ty[0]))
                out.setdefault(ty[0], []).append((f, x.get('l')))
    if len(out) < 20:
        ctx.broken('table %s has %d recognisable entries' % (short(q), len(out)))
    return out


def tas(n):
    from .rules_state import split_targs
    return [x.strip() for x in split_targs(n.d.get('ta') or '')]


def casts(g):
    return g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'any_cast')


def emits(g, ev=None):
    return g.find(lambda n: n.kind == 'call' and n.d['q'] == EM + '::Emit' and (ev is None or tas(n)[:1] == [ev]))


STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'


@prop('C08', ['fairmq/Properties.cxx', 'analyzer/inst_core.cpp'])
def c08(ctx):
    """property types"""
    ti, te = table(ctx, INFO), table(ctx, EMIT)
    for t in sorted(set(ti) | set(te)):
        ctx.ob('both-tables', simple_type(t) + ' ' + t[:10], t in ti and t in te, 'fairmq/Properties.cxx:%s' % (ti.get(t) or te.get(t))[0][1], 'type %s is missing in the %s table' % (t, 'event' if t in ti else 'conversion'))
    labels = {}
    for t, l in sorted(ti.items()):
        nm = simple_type(t) + (' (C string)' if t == 'const char *' else '')
        ctx.ob('one-entry', 'conversion of ' + nm, len(l) == 1, l[0][0].loc(), 'duplicate entry: the later one is ignored')
        for f, line in l[:1]:
            g = ctx.graph(f)
            cs = casts(g)
            bad = [n for n in cs if tas(n) != [t] or not (n.d['args'] and (parm_idx(g, n.d['args'][0]) == 0 or parm_idx(g, strip(n.d['args'][0])) == 0 or 0 in parms_in(g, n.d['args'][0])))]
            ctx.ob('cast-type', 'conversion of ' + nm, cs and not bad, f.loc(), 'reads the value as %s' % [n.d.get('ta') for n in bad or cs])
            for e, w in paths_noevent(g, lambda n: short(n.d.get('q') or '') == 'any_cast'):
                ctx.bad('cast-type', 'conversion of ' + nm, f.loc(), 'a path does not read the value')
            labs = set()
            for n in ret_values(g):
                c = canon(g, rv(n))
                if c[0] == 'pair' and len(c) == 3:
                    labs |= {s[1] for s in sub(c[2]) if s[0] == 's'}
                    consts = [s[1] for s in sub(c[1]) if s[0] == 's']
            ctx.ob('type-label', nm, labs == {simple_type(t)}, f.loc(), 'labelled %s' % sorted(labs))
            if t in ('signed char', 'unsigned char', 'std::vector<signed char, std::allocator<signed char>>', 'std::vector<unsigned char, std::allocator<unsigned char>>'):
                raw = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'operator<<' and n.d['args'] and raw_byte(n))
                ctx.ob('byte-as-number', nm, not raw, where(raw[0]) if raw else '', '8-bit integers are printed as characters')
            if t in ('bool', 'std::vector<bool, std::allocator<bool>>'):
                txt = ' '.join(repr(n.d.get('args')) for n in g.nodes if n.kind in ('call', 'ctor'))
                ctx.ob('bool-as-text', nm, 'std::boolalpha' in txt or "'true'" in repr([n.d for n in g.nodes]), f.loc(), 'bool not printed as true/false')
    for t, l in sorted(te.items()):
        nm = simple_type(t) + (' (C string)' if t == 'const char *' else '')
        ctx.ob('one-entry', 'event of ' + nm, len(l) == 1, l[0][0].loc(), 'duplicate entry: the later one is ignored')
        emitter(ctx, nm, l[0][0], t, STR if t == 'const char *' else t)
    # lookups use the dynamic type of the value
    for f in [f for f in ctx.P.fns.values() if f.clsq == PH and f.name in ('ConvertPropertyToString', 'GetPropertyInfo')]:
        g = ctx.graph(f)
        look = g.find(lambda n: n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], INFO))
        ok = look and all(short(n.d['q']) in ('at', 'find', 'count', 'end', 'contains') for n in look) and any(any(short(q) == 'type' for q in g.src_calls(n.d['args'][0])) and 0 in parms_in(g, n.d['args'][0]) for n in look if n.d['args'])
        ctx.ob('dynamic-type', f.name, ok, f.loc(), 'the conversion is not chosen by the value\'s own type')
        k = 0 if f.name == 'ConvertPropertyToString' else None
        got = set()
        for n in ret_values(g):
            t = g.resolve(rv(n))
            last = [short(s[2]) for s in sub(t) if s[0] == 'fld' and short(s[2]) in ('first', 'second')]
            got |= set(last)
        if k == 0:
            ctx.ob('dynamic-type', 'ConvertPropertyToString returns the value text', got == {'first'}, f.loc(), 'returns %s of the conversion' % sorted(got))
    # user types
    for f in [f for f in ctx.P.fns.values() if f.q == PH + '::AddType' and f.body]:
        t = f.ta.strip('<>')
        g = ctx.graph(f)
        for tb in (INFO, EMIT):
            ws = g.find(lambda n: n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], tb) and short(n.d['q']) in ('operator[]', 'insert_or_assign', 'emplace', 'insert'))
            ok = ws and all(any(s == ('x', 'typeid:' + t) for a in n.d['args'] for s in g.sources(a)) for n in ws)
            ctx.ob('user-type', 'AddType registers %s' % short(tb), ok, f.loc(), 'type not registered under its own type index')
            rep = all(short(n.d['q']) in ('operator[]', 'insert_or_assign') for n in ws)
            ctx.ob('user-type', 'AddType replaces %s' % short(tb), rep, f.loc(), 'an earlier registration is kept')
        for l in ctx.P.lambdas(f):
            lg = ctx.graph(l)
            if emits(lg):
                emitter(ctx, 'user type', l, t, t)
            else:
                cs = casts(lg)
                ctx.ob('cast-type', 'conversion of user type', cs and all(tas(n) == [t] for n in cs), l.loc(), 'reads the value as %s' % [n.d.get('ta') for n in cs])


def raw_byte(n):
    return any(p.replace('const ', '').strip(' &') in ('char', 'signed char', 'unsigned char') for p in (n.d.get('pt') or []))


def paths_noevent(g, pred):
    c = count_on_paths(g, lambda n: n.kind == 'call' and pred(n), 1)
    return [(k, v) for k, v in c.items() if k == 0]


def emitter(ctx, nm, f, t, emitted):
    g = ctx.graph(f)
    es = emits(g)
    ok = len(es) >= 1 and all(tas(n) == ['fair::mq::PropertyChange', emitted] for n in es)
    ctx.ob('event-type', 'event of ' + nm, ok, f.loc(), 'announced as %s' % [n.d.get('ta') for n in es])
    cs = casts(g)
    ctx.ob('cast-type', 'event of ' + nm, cs and all(tas(n) == [t] for n in cs if 'EventManager' not in n.file), f.loc(), 'reads the value as %s' % [n.d.get('ta') for n in cs]) if not any(x for x in cs if 'EventManager' in x.file) else \
        ctx.ob('cast-type', 'event of ' + nm, any(tas(n) == [t] for n in cs) and all(tas(n) == [t] for n in cs if 'EventManager' not in n.file), f.loc(), 'reads the value as %s' % [n.d.get('ta') for n in cs])
    cnt = count_on_paths(g, lambda n: n in es)
    ctx.ob('event-once', 'event of ' + nm, set(cnt) == {1}, f.loc(), 'announced %s times' % sorted(cnt))
    for n in es:
        a = n.d['args']
        ctx.ob('event-args', 'event of ' + nm, len(a) == 2 and parms_in(g, a[0]) == {1} and parms_in(g, a[1]) == {2} and parms_in(g, n.d['obj']) == {0}, where(n), 'announces (%s)' % ', '.join(show(x) for x in a))


# ---------------------------------------------------------------------------------- C09
CNG = ('erase', 'clear', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'swap', 'extract', 'merge', 'store')


def vm_write(g, n):
    """('key term', 'value term') when the node changes the property container"""
    if n.kind == 'write':
        l = g.resolve(n.d['lhs'])
        if l[0] == 'var':
            return None
        if not based(g, l, VM):
            return None
        keys = [s[3][0] for s in sub(l) if s[0] == 'call' and short(s[1]) in ('operator[]', 'at', 'find') and s[2] is not None and rooted(g, s[2], VM) and s[3]]
        return (keys[0] if keys else None, n.d.get('rhs'))
    if n.kind == 'call':
        if n.d.get('obj') is not None and base_is(g, n.d['obj'], VM) and short(n.d['q']) in CNG:
            a = n.d['args']
            return (a[0] if a else None, a[-1] if a else None)
        if n.d['q'] == 'boost::program_options::store' and any(base_is(g, a, VM) for a in n.d['args']):
            return (None, n.d['args'][0])
    return None


class Store:
    """letters of a property-store function"""
    def __init__(self, ctx, f, typ=None):
        self.ctx, self.f, self.typ = ctx, f, typ
        self.g = g = ctx.graph(f)
        self.F = Facts(g)
        self.ml = must_locks(g)
        self.yl = may_locks(g)

    def rel(self, n):
        return MTX in self.ml.get(n.id, ()) and any(e[0] in ('relvar', 'relmtx') for e in lock_effect(self.g, n)) and MTX not in self.after(n)

    def after(self, n):
        r = [self.ml.get(m.id, frozenset()) for m, l in n.succ if l != 'exc']
        return r[0] if r else frozenset()

    def edge(self, n, m, lab):
        k = edge_lookup(self.F, self.g, n, lab, VM)
        if k:
            return 'p' if k == 'present' else 'a'
        if n.kind == 'branch' and n.d.get('loop') and lab in (True, False) and n.d['cond'][0] == 'op' and n.d['cond'][1] in ('forr', 'hof'):
            if n.stack and short(n.stack[-1]) in ('GetSignal', 'GetChannelInfoImpl'):
                return None
            return 'i' if lab else 'e'
        return None


def single(ctx, f, update):
    """SetProperty<T> / UpdateProperty<T>"""
    t = (tas_of(f.ta) or ['?'])[0]
    s = Store(ctx, f)
    g = s.g
    nm = '%s<%s>' % (f.name, simple_type(t))

    def cl(n):
        w = vm_write(g, n)
        if w:
            return 'W' if w[0] is not None and parms_in(g, w[0]) == {0} and w[1] is not None and 1 in parms_in(g, w[1]) and MTX in s.ml[n.id] else 'X'
        if n.kind == 'call' and n.d['q'] == EM + '::Emit':
            ta, a = tas(n), n.d['args']
            if MTX in s.yl[n.id] or parms_in(g, a[0]) != {0}:
                return 'X'
            if ta == ['fair::mq::PropertyChange', t]:
                return 'T' if parms_in(g, a[1]) == {1} else 'X'
            if ta == ['fair::mq::PropertyChangeAsString', STR]:
                return 'A' if parms_in(g, a[1]) & {0, 1} and parms_in(g, a[1]) <= {0, 1} else 'X'
            return 'X'
        if s.rel(n):
            return 'u'
        if n.kind == 'ret' and update:
            c = cval(g, rv(n))
            return 'R' if c == 1 else ('r' if c == 0 else 'X')
        return None
    post = 'Wu[upa]*(T[upa]*A|A[upa]*T)[upa]*'
    rx = post if not update else 'p+%sR[u]*|a+u?ru?' % post
    lang(ctx, 'write-then-announce', nm, g, cl, rx, edge=s.edge,
         legend='W store the value under the key with the mutex held, u release, T announce as its type, A announce as text (mutex not held), R/r report success/failure, p/a key present/absent')


def tas_of(s):
    from .rules_state import split_targs
    return [x.strip() for x in split_targs(s)] if s and '<' in s else []


def many(ctx, f, update):
    s = Store(ctx, f)
    g = s.g

    def cl(n):
        w = vm_write(g, n)
        if w:
            return 'W' if w[0] is not None and parms_in(g, w[0]) == {0} and w[1] is not None and parms_in(g, w[1]) == {0} and MTX in s.ml[n.id] and 'first' in lastf(g, w[0]) and 'second' in lastf(g, w[1]) else 'X'
        if n.kind == 'call' and n.d['q'] == EM + '::Emit':
            ta, a = tas(n), n.d['args']
            ok = MTX not in s.yl[n.id] and parms_in(g, a[0]) == {0} and 0 in parms_in(g, a[1])
            return 'A' if ok and ta[0] == 'fair::mq::PropertyChangeAsString' else 'X'
        if n.kind == 'call' and not n.d.get('q') and n.d.get('callee') is not None and rooted_any(g, n.d['callee'], EMIT):
            a = n.d['args']
            ok = MTX not in s.yl[n.id] and len(a) == 3 and base_is(g, a[0], EV) and parms_in(g, a[1]) == {0} and parms_in(g, a[2]) == {0} and 'first' in lastf(g, a[1]) and 'second' in lastf(g, a[2])
            look = [x for x in sub(g.resolve(n.d['callee'])) if x[0] == 'call' and short(x[1]) in ('at', 'operator[]', 'find')]
            ok = ok and look and all(any(y[0] == 'call' and short(y[1]) == 'type' for y in sub(x)) for x in look)
            return 'T' if ok else 'X'
        if s.rel(n):
            return 'u'
        if n.kind == 'ret' and update:
            c = cval(g, rv(n))
            return 'R' if c == 1 else ('r' if c == 0 else 'X')
        return None
    body = '(iW)*eu(i(TA|AT))*e'
    rx = body if not update else '(ip)*e%sR|(ip)*iae?u?re?u?' % body
    lang(ctx, 'write-then-announce' if not update else 'all-or-nothing', f.name, g, cl, rx, edge=s.edge,
         legend='i/e next element / all elements done, p/a key present/absent, W store one element with the mutex held, u release, T/A announce it as its type / as text, R/r success/failure')


def lastf(g, t):
    return {short(x[2]) for x in g.sources(t) if x[0] == 'fld'}


def rooted_any(g, t, q):
    return any(x[0] == 'glob' and x[1] == q or x[0] == 'fld' and x[2] == q for x in g.sources(t))


@prop('C09', ['fairmq/ProgOptions.cxx', 'analyzer/inst_core.cpp', 'fairmq/Properties.cxx'])
def c09(ctx):
    """property store"""
    allf = [f for f in ctx.P.fns.values() if f.clsq == PO and f.kind == 'method']
    pub = [f for f in allf if f.acc == 'public']
    if len(pub) < 25:
        ctx.broken('only %d public functions of the property store' % len(pub))
    h = guarded(ctx, 'guarded-by', pub, {VM: MTX, PO + '::fUnregisteredOptions': MTX})
    if len(h) < 10:
        ctx.broken('fewer than 10 accesses to the property container')
    by = {}
    for f in pub:
        by.setdefault(f.name, []).append(f)
    for f in by.get('SetProperty', []) or ctx.broken('SetProperty not instantiated'):
        single(ctx, f, False)
    for f in by.get('UpdateProperty', []) or ctx.broken('UpdateProperty not instantiated'):
        single(ctx, f, True)
    many(ctx, ctx.fn(PO + '::SetProperties'), False)
    many(ctx, ctx.fn(PO + '::UpdateProperties'), True)
    # nothing else changes the container
    writers = {'SetProperty', 'UpdateProperty', 'SetProperties', 'UpdateProperties', 'DeleteProperty', 'ParseAll', 'AddChannel', 'SetValue', 'ProgOptions'}
    for f in pub:
        g = ctx.graph(f)
        ws = g.find(lambda n: vm_write(g, n))
        if f.name not in writers:
            ctx.ob('read-only', f.name + '(%d)' % len(f.params), not ws, where(ws[0]) if ws else '', 'a query changes the property container')
        # lookups through the non-const map would insert
        ins = [n for n in g.find(lambda n: n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], VM) and short(n.d['q']) == 'operator[]' and n.d['q'].startswith('std::map'))]
        if f.name not in writers:
            ctx.ob('read-only', f.name + '(%d) inserts nothing' % len(f.params), not ins, where(ins[0]) if ins else '', 'inserts a missing key')
        yl = may_locks(g)
        for n in g.find(lambda n: n.kind == 'call' and (n.d['q'] == EM + '::Emit' or n.d['q'].startswith('boost::signals2::signal') and short(n.d['q']) == 'operator()')):
            ctx.ob('no-callback-under-lock', '%s: %s' % (f.name, simple_type((tas(n) or ['', ''])[-1]) if n.d['q'] == EM + '::Emit' else 'signal'), not yl[n.id] & {MTX, EM + '::fMutex'}, where(n), 'subscribers are called with the store locked: a subscriber that reads a property deadlocks')
    # delete
    g = ctx.graph(ctx.fn(PO + '::DeleteProperty'))
    lang(ctx, 'delete', 'DeleteProperty', g, lambda n: ('D' if short(n.d['q']) == 'erase' and parms_in(g, vm_write(g, n)[0]) == {0} else 'X') if n.kind == 'call' and vm_write(g, n) else ('X' if vm_write(g, n) else None), 'D', legend='D erase the given key')
    # reads
    for f in by.get('GetProperty', []) + by.get('GetPropertyAsString', []) + by.get('GetValue', []) + by.get('GetStringValue', []):
        read(ctx, f)
    for nm in ('GetProperties', 'GetPropertiesAsString', 'GetPropertiesStartingWith', 'GetPropertiesAsStringStartingWith', 'GetPropertyKeys'):
        query(ctx, ctx.fn(PO + '::' + nm))
    # subscriptions go to the store's event manager with the right event
    for nm, ev in (('Subscribe', 'fair::mq::PropertyChange'), ('Unsubscribe', 'fair::mq::PropertyChange'), ('SubscribeAsString', 'fair::mq::PropertyChangeAsString'), ('UnsubscribeAsString', 'fair::mq::PropertyChangeAsString')):
        for f in by.get(nm, []) or ctx.broken(nm + ' not instantiated'):
            g = ctx.graph(f)
            want = 'Unsubscribe' if nm.startswith('Un') else 'Subscribe'
            cs = g.find(lambda n: n.kind == 'call' and n.d['q'] == EM + '::' + want)
            ty = (tas_of(f.ta) or [STR])[0]
            ok = len(cs) == 1 and tas(cs[0]) == [ev, ty] and base_is(g, cs[0].d['obj'], EV) and parms_in(g, cs[0].d['args'][0]) == {0}
            if ok and want == 'Subscribe':
                ok = parms_in(g, cs[0].d['args'][1]) == {1}
            ctx.ob('subscription', nm + '<%s>' % simple_type(ty), ok and set(count_on_paths(g, lambda n: n in cs)) == {1}, f.loc(), 'does not %s exactly this event' % want.lower())
    # parsing starts from an empty container
    for f in by.get('ParseAll', []):
        g = ctx.graph(f)
        cl = lambda n, g=g: None if not (n.kind in ('call', 'write') and vm_write(g, n)) else {'clear': 'c', 'store': 's'}.get(short(n.d.get('q', '')), 'X')
        lang(ctx, 'parse', 'ParseAll(%d)' % len(f.params), g, cl, 'cs', legend='c discard defaults, s store the parsed options')
    from .witness import must_fail, must_compile
    for ty in ('const char*', 'char*'):
        must_fail(ctx, 'unsupported-subscription', 'Subscribe<%s> is rejected at compile time' % ty,
                  '#include <fairmq/ProgOptions.h>\nvoid f(fair::mq::ProgOptions& p) { p.Subscribe<%s>("s", [](const std::string&, %s) {}); }\n' % (ty, ty), 'static assertion', 'fairmq/ProgOptions.h')
    must_compile(ctx, 'unsupported-subscription', 'Subscribe<std::string> compiles', '#include <fairmq/ProgOptions.h>\nvoid f(fair::mq::ProgOptions& p) { p.Subscribe<std::string>("s", [](const std::string&, std::string) {}); }\n', 'fairmq/ProgOptions.h')


def read(ctx, f):
    g = ctx.graph(f)
    F = Facts(g)
    nm = '%s(%d)%s' % (f.name, len(f.params), f.ta and '<%s>' % simple_type((tas_of(f.ta) or ['?'])[0]) or '')
    dflt = len(f.params) > 1
    reached, trace = run(g, 'none', lambda n, s, fs: (s,), lambda n, m, lab, s: edge_lookup(F, g, n, lab, VM) or s)
    any_present = False
    for n in ret_values(g):
        for fs, s in reached.get(n.id, ()):
            v = rv(n)
            src = list(g.sources(v))
            keyed = any(x[0] == 'call' and short(x[1]) in ('operator[]', 'at', 'find') and x[2] is not None and rooted(g, x[2], VM) and x[3] and parms_in(g, x[3][0]) == {0} for x in src)
            if s == 'present':
                any_present = True
                ctx.ob('read-present', nm, keyed and (not dflt or 1 not in parms_in(g, v)), where(n), 'the value returned for an existing key is not the stored one')
            elif s == 'absent':
                ok = dflt and parms_in(g, v) == {1} or not dflt and f.name in ('GetValue', 'GetStringValue') and not keyed
                ctx.ob('read-absent', nm, ok, where(n), 'returns %s for a missing key' % show(v))
            else:
                # exception-based lookup (at) is fine for throwing variants
                ctx.ob('read-present', nm, keyed, where(n), 'returns a value without looking the key up')
    ctx.ob('read-present', nm + ' can return the stored value', any_present, f.loc(), 'never returns the stored value')
    for n in g.find(lambda n: n.kind == 'throw'):
        for fs, s in reached.get(n.id, ()):
            ctx.ob('read-absent', nm + ' throws only for a missing key', s == 'absent' and 'PropertyNotFound' in n.d.get('t', ''), where(n), 'throws %s although the key is %s' % (n.d.get('t'), s))
    if not dflt and f.name in ('GetProperty', 'GetPropertyAsString'):
        ends = {s for fs, s in reached.get(g.exit.id, ())}
        ctx.ob('read-absent', nm + ' reports a missing key', 'absent' not in ends, f.loc(), 'returns normally for a missing key')


def query(ctx, f):
    """every property whose key matches is returned with its own value, and no other"""
    g = ctx.graph(f)
    F = Facts(g)
    pre = 'StartingWith' in f.name
    keys = f.name == 'GetPropertyKeys'

    def match(n, lab):
        if n.kind != 'branch' or lab not in (True, False):
            return None
        key, pol = F.key(n.d['cond'])
        v = lab if pol else not lab
        calls = [x for x in sub(key) if x[0] == 'call']
        if not pre and key[0] == 'call' and short(key[1]) == 'regex_match':
            return 'm' if v else 'x'
        if pre and key[0] == 'op' and key[1] == '==' and constval(key[3]) == 0:
            c = key[2]
            if c[0] == 'call' and short(c[1]) == 'compare' and len(c[3]) == 3 and constval(c[3][0]) == 0 and 'first' in lastf(g, c[2]) and parms_in(g, c[3][2]) == {0} and c[3][1][0] == 'call' and short(c[3][1][1]) in ('length', 'size') and parms_in(g, c[3][1]) == {0}:
                return 'm' if v else 'x'
            if c[0] == 'call' and short(c[1]) in ('rfind', 'find') and len(c[3]) == 2 and constval(c[3][1]) == 0 and short(c[1]) == 'rfind':
                return 'm' if v else 'x'
        return None

    def ed(n, m, lab):
        r = match(n, lab)
        if r:
            return r
        if n.kind == 'branch' and n.d.get('loop') and n.d['cond'][0] == 'op' and n.d['cond'][1] in ('forr', 'hof'):
            return 'i' if lab else 'e'
        return None

    def cl(n):
        if n.kind == 'call' and short(n.d['q']) in ('emplace', 'push_back', 'insert', 'emplace_back', 'insert_or_assign', 'try_emplace') and n.d.get('obj') is not None and n.d['obj'][0] == 'var':
            fl = [lastf(g, a) for a in n.d['args']]
            ok = len(n.d['args']) >= 1 and 'first' in fl[0] and (keys or len(n.d['args']) == 2 and ('second' in fl[1] or any(x[0] == 'call' and short(x[1]) == 'value' for x in g.sources(n.d['args'][1]))))
            return 'E' if ok else 'X'
        if n.kind == 'write' and n.d['lhs'][0] == 'call' and short(n.d['lhs'][1]) == 'operator[]' and n.d['lhs'][2] and n.d['lhs'][2][0] == 'var':
            return 'E'
        return None
    # the collected elements come from the container
    its = g.find(lambda n: n.kind == 'decl' and n.d.get('elem'))
    lang(ctx, 'query', f.name, g, cl, '(iE)*e' if keys else '(i(mE|x))*e', edge=ed, legend='i/e next property / all visited, m/x key matches / does not, E add this key and value to the result')
