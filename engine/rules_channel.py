"""C10 channel settings schema, C11 channel validation, C12 channel transfers and copies."""
import re
from .core import prop, Facts, short, fmt_trace, show, sub, run
from .lib import *
from .rules_state import enum_vals, const_strings
from .rules_props import vm_write, tas, STR, simple_type
from .prog import walk

CH = 'fair::mq::Channel'
STRT = {'type': 'Type', 'method': 'Method', 'address': 'Address', 'transport': 'TransportName'}
INTS = ['sndBufSize', 'rcvBufSize', 'sndKernelSize', 'rcvKernelSize', 'sndTimeoutMs', 'rcvTimeoutMs', 'linger', 'rateLogging', 'portRangeMin', 'portRangeMax']
KEYS = {**{k: STR for k in STRT}, **{k: 'int' for k in INTS}, 'autoBind': 'bool'}


def up(k):
    return k[0].upper() + k[1:]


def default_of(ctx, k):
    q = CH + '::Default' + STRT.get(k, up(k))
    v = ctx.P.vars.get(q)
    if not v or v.get('init') is None:
        ctx.broken('default %s not found' % q)
    i = v['init']
    if i.get('k') == 'str':
        return i['v']
    return next((x['cv'] for x in walk(i) if 'cv' in x), None)


def field_of(k):
    return CH + '::f' + ('TransportType' if k == 'transport' else up(k))


def strs(g, t):
    return {s[1] for s in g.sources(t) if s[0] == 's'}


def consts(ctx, g, t):
    """constants (including named ones) flowing into t"""
    out = set()
    for s in g.sources(t):
        if s[0] in ('s', 'c'):
            out.add(s[1])
        elif s[0] == 'glob':
            v = ctx.P.vars.get(s[1])
            i = v and v.get('init')
            if i:
                if i.get('k') == 'str':
                    out.add(i['v'])
                else:
                    out |= {x['cv'] for x in [i] if 'cv' in x}
        elif s[0] == 'enum':
            c = constval(s)
            if c is not None:
                out.add(c)
    return out


def keys_in(g, t):
    return strs(g, t) & set(KEYS)


def norm_str(t):
    return t.replace('__cxx11::', '')


@prop('C10', ['fairmq/Channel.cxx', 'fairmq/JSONParser.cxx', 'fairmq/SuboptParser.cxx', 'fairmq/ProgOptions.cxx', 'analyzer/inst_core.cpp', 'analyzer/inst_transport.cpp'])
def c10(ctx):
    """channel settings"""
    rec = ctx.cls(CH)
    fields = [f['n'] for f in rec['fields']]
    for k in KEYS:
        if short(field_of(k)) not in fields:
            ctx.broken('channel has no field %s' % field_of(k))
    from_properties(ctx)
    from_json(ctx)
    from_subopt(ctx)
    to_store(ctx)
    copies(ctx, fields)
    to_socket(ctx)
    setters(ctx)


def from_properties(ctx):
    cs = [f for f in ctx.fns(CH + '::Channel') if len(f.params) == 3 and f.params[1]['t'] == 'int' and 'boost::any' in f.params[2]['t']]
    if not cs:
        ctx.broken('no constructor from properties')
    f = cs[0]
    g = ctx.graph(f)
    F = Facts(g)
    last = {}
    for k in KEYS:
        q = field_of(k)
        ws = g.find(lambda n: n.kind == 'write' and fldq(n.d['lhs']) == q)
        fin = [n for n in ws if keys_in(g, n.d['rhs'])]
        ok = len(fin) >= 1 and all(keys_in(g, n.d['rhs']) == {k} and any(short(c) == 'any_cast' for c in g.src_calls(n.d['rhs'])) for n in fin)
        ctx.ob('read-setting', k, ok, where(fin[0]) if fin else f.loc(), 'the setting is read from %s' % [sorted(keys_in(g, n.d['rhs'])) for n in fin])
        if not fin:
            continue
        n = fin[-1]
        d = default_of(ctx, k)
        ctx.ob('default', k + ' (properties)', d in consts(ctx, g, n.d['rhs']) or d == default_of(ctx, k) and any(s[0] == 'glob' and s[1].endswith('::Default' + STRT.get(k, up(k))) for s in g.sources(n.d['rhs'])), where(n), 'a missing property does not yield %r' % (d,))
        ty = {norm_str(tas(m)[0]) for m in g.nodes if m.kind == 'call' and m.id in g.live and short(m.d['q']) == 'any_cast' and tas(m) and any(s == m.d['term'] for s in g.sources(n.d['rhs']))}
        ctx.ob('setting-type', k + ' (properties)', ty == {KEYS[k]}, where(n), 'read as %s' % sorted(ty))
        # nothing overwrites the setting afterwards
        later = [m for m in ws if m not in fin]
        after = [m for m in later if any(p is n for p, _ in [(n, 0)]) and reaches(g, n, m)]
        ctx.ob('read-setting', k + ' is kept', not after, where(after[0]) if after else '', 'overwritten after it was read')
    # value if present, default otherwise
    for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'any_cast'):
        ok = holds(g, n, lambda key, val: present_fact(g, key, val)) or any(s[0] == 'call' and short(s[1]) == 'at' for s in sub(g.resolve(n.d['args'][0]))) and False
        ctx.ob('value-if-present', 'line %s' % n.line if False else 'lookup %s' % simple_type((tas(n) or ['?'])[0]), ok, where(n), 'the property is read without having been found')
    # and the default only if it is absent
    for u, ds in g.defs.items():
        if not any(any(s[0] == 'call' and short(s[1]) == 'any_cast' for s in sub(d)) for d in ds):
            continue
        for n in g.find(lambda n: n.kind == 'write' and n.d['lhs'][0] == 'var' and n.d['lhs'][1] == u):
            if not any(s[0] == 'call' and short(s[1]) == 'any_cast' for s in sub(n.d['rhs'])):
                ok = holds(g, n, lambda key, val: isinstance(val, bool) and present_fact(g, key, not val))
                ctx.ob('value-if-present', 'default only if absent (%s)' % simple_type(g.vinfo[u].get('t', '')), ok, where(n), 'the default is used although the property may be present')
    key_format(ctx, g, [m for m in g.nodes if m.kind == 'enter' and m.d['fn'].name == 'ToString'], f, 'properties', ['chans.', 'P0', '.', 'P1', '.'])


def present_fact(g, key, val):
    if key[0] == 'call' and short(key[1]) in ('count', 'contains') and key[2] is not None and 2 in parms_in(g, key[2]):
        return val is True
    if key[0] == 'op' and key[1] == '==' and any(isinstance(x, tuple) and x and x[0] == 'call' and short(x[1]) == 'find' for x in key[2:4]):
        return val is False
    if key[0] == 'op' and key[1] == '==' and any(isinstance(x, tuple) and x and x[0] == 'call' and short(x[1]) == 'count' for x in key[2:4]):
        c = next((constval(x) for x in key[2:4] if constval(x) is not None), None)
        return (c == 0 and val is False) or (c == 1 and val is True)
    if key[0] == 'op' and key[1] == '<' and constval(key[2]) == 0:
        return val is True
    return False


def reaches(g, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for m, _ in x.succ:
            if m is b:
                return True
            if m.id not in seen:
                seen.add(m.id)
                todo.append(m)
    return False


def key_format(ctx, g, enters, f, what, want):
    """ToString argument shapes: literal pieces and which root parameter each variable piece is"""
    got = []
    for e in enters:
        a = e.d['call'].d['args']
        sh = []
        for t in a:
            r = g.resolve(t)
            i = parm_idx(g, t)
            if r[0] == 's':
                sh.append(r[1])
            elif i is not None:
                sh.append('P%d' % i)
            else:
                ps = parms_in(g, t)
                sh.append('?')
        got.append(sh)
    ctx.ob('key-format', what, want in got, f.loc(), 'keys are built as %s, not %s' % (got[:3], want))


def from_json(ctx):
    f = ctx.fn('fair::mq::helper::ChannelParser')
    g = ctx.graph(f)
    binds = {}
    for n in g.nodes:
        if n.id not in g.live:
            continue
        k = v = None
        if n.kind == 'call' and n.d.get('obj') is not None and short(n.d['q']) in ('emplace', 'insert_or_assign', 'try_emplace', 'insert') and n.d['args']:
            if len(n.d['args']) == 2:
                k, v = n.d['args']
            else:
                c = g.resolve(n.d['args'][0])
                a = c[2] if c[0] == 'ctor' else (c[1] if c[0] == 'init' else (c[3] if c[0] == 'call' else ()))
                if len(a) == 2:
                    k, v = a
        elif n.kind == 'write':
            l = g.resolve(n.d['lhs'])
            if l[0] == 'call' and short(l[1]) in ('operator[]', 'at') and l[3]:
                k, v = l[3][0], n.d['rhs']
        if k is None:
            continue
        ks = strs(g, k)
        if len(ks) == 1 and ks <= set(KEYS):
            binds.setdefault(next(iter(ks)), []).append((n, v))
    unknown = set()
    for k in KEYS:
        levels = {'channel': [], 'socket': []}
        for n, v in binds.get(k, []):
            gets = [m for m in g.nodes if m.kind == 'call' and short(m.d['q']) in ('get', 'get_optional') and 'property_tree' in m.d['q'] and any(s == m.d['term'] for s in g.sources(v))]
            inherited = any(s[0] == 'call' and short(s[1]) == 'any_cast' for s in g.sources(v))
            levels['socket' if inherited else 'channel'].append((n, v, gets))
        for lv, l in levels.items():
            ok = bool(l)
            for n, v, gets in l:
                names = keys_in(g, v) | set()
                ok = ok and names == {k} and gets and all(norm_str((tas(m) or [''])[0]) == KEYS[k] for m in gets)
                if lv == 'channel' and ok:
                    d = default_of(ctx, k)
                    ctx.ob('default', k + ' (JSON)', d in consts(ctx, g, v), where(n), 'a missing entry does not yield %r' % (d,))
                if lv == 'socket' and ok:
                    ct = {norm_str(tas(m)[0]) for m in g.nodes if m.kind == 'call' and short(m.d['q']) == 'any_cast' and tas(m) and any(s == m.d['term'] for s in g.sources(v))}
                    ctx.ob('setting-type', k + ' (socket inherits)', ct == {KEYS[k]}, where(n), 'inherited as %s' % sorted(ct))
            ctx.ob('json-' + lv, k, ok, where(l[0][0]) if l else f.loc(), 'the %s-level setting is not read under this name with type %s' % (lv, simple_type(KEYS[k])))
    # stored under chans.<name>.<index>.<key>, with the value of that key
    put = g.find(lambda n: n.kind == 'call' and n.d.get('obj') is not None and parm_idx(g, n.d['obj']) == 1 and short(n.d['q']) in INSERTERS + ('operator[]',))
    fm = set()
    for n in put:
        a = n.d['args']
        v = strip(a[1]) if len(a) == 2 else ('x', '')
        fm.add(v[1] if v[0] == 'fld' and short(v[2]) == 'second' else None)
    ent = [m for m in g.nodes if m.kind == 'enter' and m.id in g.live and m.d['fn'].name == 'ToString' and len(m.d['call'].d['args']) >= 4]
    shapes, keyel = set(), set()
    for e in ent:
        sh = []
        for t in e.d['call'].d['args']:
            r = g.resolve(t)
            if r[0] == 's':
                sh.append(r[1])
            elif 'name' in strs(g, t):
                sh.append('NAME')
            elif any(s[0] == 'fld' and short(s[2]) == 'first' for s in sub(r)):
                sh.append('KEY')
                keyel.add(strip(t)[1] if strip(t)[0] == 'fld' else None)
            else:
                sh.append('INDEX' if 'int' in (g.vinfo.get(strip(t)[1], {}).get('t', '') if strip(t)[0] == 'var' else 'int') else '?')
        shapes.add(''.join(sh) if '' not in sh else '?')
    ctx.ob('key-format', 'JSON', shapes <= {'chans.NAME.INDEX.KEY', 'chans.NAME.0.KEY'} and 'chans.NAME.INDEX.KEY' in shapes and len(put) >= 2, f.loc(), 'keys are built as %s' % sorted(shapes))
    json_loops(ctx, g, f, put)
    ctx.ob('json-store', 'key and value of the same setting', fm and fm == keyel and None not in fm, where(put[0]) if put else f.loc(), 'a setting is stored under another key')
    # the device filter
    h = ctx.fn('fair::mq::helper::DeviceParser')
    g = ctx.graph(h, inline=lambda x: x.name not in ('ChannelParser',))
    cs = g.find(lambda n: n.kind == 'call' and n.d['q'] == 'fair::mq::helper::ChannelParser')
    for n in cs:
        ok = holds(g, n, lambda k, v: k[0] == 'op' and k[1] == '==' and v is True and any(1 in parms_in(g, x) for x in k[2:4]) and any(strs(g, x) >= {'key', 'id'} for x in k[2:4]) or k[0] == 'call' and short(k[1]) == 'operator==' and v is True and any(1 in parms_in(g, x) for x in k[3]) and any(strs(g, x) >= {'key', 'id'} for x in k[3]))
        ctx.ob('device-filter', 'channels of the requested device only', ok, where(n), 'channels of another device are used (facts %s)' % fact_show(g, n)[:4])
    ctx.ob('device-filter', 'channels are parsed', bool(cs), h.loc(), 'no channel is parsed')


def json_loops(ctx, g, f, put):
    """numSockets copies are numbered 0..n-1; listed sockets 0,1,..; without sockets one copy at 0"""
    F = Facts(g)
    num = [n.d['term'] for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'get' and n.d['args'] and strs(g, n.d['args'][0]) == {'numSockets'})]
    if len(num) != 1:
        ctx.bad('json-sockets', 'numSockets is read', f.loc(), 'the number of sockets is not read')
        return
    nt = canon(g, num[0])
    C = lambda t: canon(g, t)
    N = lambda t: any(s == nt for s in sub(C(t)))
    idx = {strip(a) for m in g.nodes if m.kind == 'enter' and m.id in g.live and m.d['fn'].name == 'ToString' for a in m.d['call'].d['args'] if strip(a)[0] == 'var' and g.vinfo[strip(a)[1]].get('t') == 'int'}
    bounds = 0
    for n in g.find(lambda n: n.kind == 'branch'):
        k, pol = F.key(n.d['cond'])
        if k[0] == 'op' and len(k) == 4 and (N(k[2]) or N(k[3])):
            a, b = C(k[2]), C(k[3])
            ok = k[1] == '<' and (constval(a) == 0 and b == nt or a == nt and constval(b) == 1 or k[2] in idx and b == nt) or k[1] == '==' and 0 in (constval(a), constval(b)) or k[1] in ('==',) and any(x in idx for x in k[2:4])
            bounds += k[2] in idx or k[3] in idx
            ctx.ob('json-sockets', 'numSockets test', ok, where(n), 'compared as %s' % show(k))
    ctx.ob('json-sockets', 'numSockets bounds the loop', bounds >= 1, f.loc(), 'the number of sockets does not bound the loop')
    for v in idx:
        ds = [(constval(d), d) for d in g.defs[v[1]]]
        ok = all(c == 0 or d[0] == 'op' and d[1] == '+' and v in d[2:4] and 1 in [constval(x) for x in d[2:4]] for c, d in ds) and any(c == 0 for c, d in ds)
        ctx.ob('json-sockets', 'index counts from 0 in steps of 1', ok, f.loc(), 'index takes values %s' % [show(d) for c, d in ds])
    # listed sockets: one step of the index per element
    incs = [n for n in g.find(lambda n: n.kind == 'write' and n.d['lhs'] in idx and n.d['rhs'][0] == 'op') if not holds(g, n, lambda k, v: v is True and k[0] == 'op' and k[1] == '<' and k[2] == n.d['lhs'] and C(k[3]) == nt)]
    loops = [n for n in g.find(lambda n: n.kind == 'branch') if n.d.get('loop') and any(n.fn is i.fn and reaches(g, n, i) and reaches(g, i, n) for i in incs)]
    if not incs or not loops:
        ctx.bad('json-sockets', 'listed sockets', f.loc(), 'the listed sockets are not numbered')
        return
    for v in {n.d['lhs'] for n in incs}:
        mine = [n for n in incs if n.d['lhs'] == v]
        inner = [loops_around(g, n)[0][0] for n in mine if loops_around(g, n)]
        bad, _ = words(g, lambda n: 'I' if n in mine else None, '(iI)*', edge=lambda n, m, lab: 'i' if n in inner and lab is True else None)
        ctx.ob('json-sockets', 'one index per listed socket', not bad, where(mine[0]), 'a path numbers the sockets %s' % (bad[0][1] if bad else ''), bad[0][2] if bad else None)
        # the common settings are used as socket 0 only when none was listed
        zero = [m for m in g.nodes if m.kind == 'enter' and m.id in g.live and m.fn is mine[0].fn and m.d['fn'].name == 'ToString' and any(".0." in str(a) for a in m.d['call'].d['args'])]
        for z in zero:
            ok = holds(g, z, lambda k, b: k[0] == 'op' and (k[1] == '<' and constval(k[2]) == 0 and k[3] == v and b is False or k[1] == '==' and v in k[2:4] and 0 in [constval(x) for x in k[2:4]] and b is True or k[1] == '<' and k[2] == v and constval(k[3]) == 1 and b is True))
            ctx.ob('json-sockets', 'common settings only without listed sockets', ok, where(z), 'socket 0 may be replaced by the common settings')
        F2 = F
        seen = [n for n in g.find(lambda n: n.kind == 'branch') if (lambda k: k[0] == 'op' and v in k[2:4] and any(constval(x) is not None for x in k[2:4]))(F.key(n.d['cond'])[0])]
        for n in seen:
            k = F.key(n.d['cond'])[0]
            ok = k[1] == '<' and (constval(k[2]) == 0 or constval(k[3]) == 1) or k[1] == '==' and 0 in [constval(x) for x in k[2:4]]
            ctx.ob('json-sockets', 'test for listed sockets', ok, where(n), 'compared as %s' % show(k))


def from_subopt(ctx):
    v = ctx.P.vars.get('fair::mq::channelOptionKeys')
    e = ctx.P.enums.get('fair::mq::channelOptionKeyIds')
    f = ctx.fn('fair::mq::SuboptParser')
    g = ctx.graph(f, inline=lambda x: x.name != 'PtreeParser')
    so = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'getsubopt')
    if not v or not so:
        ctx.broken('sub-option table not found')
    loc = 'fairmq/SuboptParser.cxx:%s' % (v.get('l') or '')
    ents = [('null' if x.get('k') in ('null', 'nullptr') else x.get('v')) for x in flat(v['init'])]
    tab = [x for x in ents if x != 'null']
    for k in list(KEYS) + ['name', 'numSockets']:
        ctx.ob('option-known', k, tab.count(k) == 1, loc, 'the option is listed %d times' % tab.count(k))
    ctx.ob('option-known', 'list ends with a null entry', ents and ents[-1] == 'null' and 'null' not in ents[:-1], loc, 'the list is not terminated')
    if e:
        for c in e['c']:
            if c['n'] == 'lastsocketkey':
                ctx.ob('option-position', c['n'], c['v'] == len(tab), loc, 'wrong number of options')
                continue
            ctx.ob('option-position', c['n'], c['v'] < len(tab) and tab[c['v']].lower() == c['n'].lower(), loc, 'position %d holds %s' % (c['v'], tab[c['v']] if c['v'] < len(tab) else None))
    # a value that may be missing is used only after it was checked
    val = [strip(a) for a in so[0].d['args'] if strip(a)[0] == 'var'][-1:]
    val = [strip(so[0].d['args'][2])] if len(so[0].d['args']) == 3 else val
    uses = 0
    for n in g.nodes:
        if n.id not in g.live or n.kind != 'call' or n is so[0] or n.d.get('mac') == 'LOG' or any(m.kind == 'enter' for m, _ in n.succ):
            continue
        if any(strip(g.resolve(a)) == val[0] and a[0] != 'addr' for a in n.d['args']):
            uses += 1
            ok = always(g, n, lambda k, b: (k == val[0] and b is True) or k[0] == 'op' and k[1] == '==' and val[0] in k[2:4] and any(x[0] == 'null' or constval(x) == 0 for x in k[2:4]) and b is False)
            ctx.ob('value-checked', '%s(value)' % short(n.d['q']), ok, where(n), 'an option given without "=value" has no value')
    if not uses:
        ctx.bad('value-checked', 'options are stored', f.loc(), 'no option value is used')
    # every option value is stored exactly once, under its own name, and nothing else is
    puts = {}
    for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']) in ('put', 'add') and 'property_tree' in n.d['q']):
        if any(any(s == val[0] for s in g.sources(a)) for a in n.d['args'][1:]):
            puts[n.id] = n
    outw = [n for n in g.find(lambda n: n.kind == 'write') if n.d['lhs'] == val[0] and n.d.get('rhs') == ('x', 'out')]
    term = Facts(g).key(('op', '==', so[0].d['term'], ('c', 7)))[0][2]
    ct = canon(g, so[0].d['term'])
    for i, k in enumerate(tab):
        def inj(n, fs):
            if n in outw:
                d = dict(fs)
                d[val[0]] = True
                d[term] = ('=', i)
                return frozenset(d.items())
            return fs

        def cl(n):
            if n in outw:
                return 'g'
            if n.id in puts:
                kt = g.resolve(n.d['args'][0])
                lit = strs(g, n.d['args'][0])
                ix = any((s[0] == 'idx' and canon(g, s[2]) == ct or s[0] == 'call' and short(s[1]) in ('at', 'operator[]') and canon(g, s[3][0]) == ct) and any(y[0] == 'glob' and y[1].endswith('channelOptionKeys') for y in sub(s)) for s in sub(kt))
                return 'S' if ix or lit == {k} else ('n' if lit == {'name'} else 'X')
            if k == 'address' and n.kind == 'call' and short(n.d['q']) in ('push_back', 'emplace_back', 'insert') and 'property_tree' in n.d['q']:
                return 'P'
            return None
        bad, reached = words(g, cl, '(P|n|gSP)*' if k == 'address' else '(n|gS)*' if k != 'name' else 'S*(gSS*)*', inject=inj)
        ctx.ob('option-name', k, not bad, where(bad[0][0]) if bad and bad[0][0].line else f.loc(), 'the option is %s' % ('dropped' if bad and bad[0][1].endswith('g') or bad and 'gg' in bad[0][1] else 'stored under another name or twice'), bad[0][2] if bad else None)
    # the tree built here is the one the JSON parser reads
    read = set()
    for q in ('ChannelParser', 'DeviceParser'):
        h = ctx.fn('fair::mq::helper::' + q)
        hg = ctx.graph(h)
        for n in hg.nodes:
            if n.kind == 'call' and n.id in hg.live and short(n.d['q']) in ('get', 'get_child', 'operator==', 'operator!='):
                read |= {s[1] for a in n.d['args'] for s in sub(hg.resolve(a)) if s[0] == 's'}
    pg = ctx.graph(ctx.fn('fair::mq::PtreeParser'), inline=lambda x: False)
    for n in pg.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'get_child'):
        read |= {s[1] for a in n.d['args'] for s in sub(pg.resolve(a)) if s[0] == 's'}
    wrote = set()
    for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']) in ('put', 'add', 'add_child', 'put_child') and 'property_tree' in n.d['q']):
        for x in {s[1] for s in sub(g.resolve(n.d['args'][0])) if s[0] == 's'}:
            wrote |= set(x.split('.'))
    ctx.ob('option-tree', 'every node written is read', wrote <= read, f.loc(), 'nodes %s are never read' % sorted(wrote - read))
    ctx.ob('option-tree', 'every level is written', wrote >= {'sockets', 'channels', 'devices', 'fairMQOptions'} and wrote & {'id', 'key'} and 'name' in wrote, f.loc(), 'missing levels: %s' % sorted({'sockets', 'channels', 'devices', 'fairMQOptions', 'name'} - wrote))


def flat(init):
    if isinstance(init, dict):
        k = init.get('k')
        if k in ('str', 'null', 'nullptr'):
            return [init]
        out = []
        for key in ('a', 'e'):
            x = init.get(key)
            for y in (x if isinstance(x, list) else [x]):
                out += flat(y)
        return out
    return []


def to_store(ctx):
    f = ctx.fn('fair::mq::ProgOptions::AddChannel')
    g = ctx.graph(f)
    seen = {}
    for n in g.nodes:
        w = vm_write(g, n) if n.id in g.live else None
        if w and w[0] is not None:
            for k in keys_in(g, w[0]):
                seen.setdefault(k, []).append((n, w[0], w[1]))
    for k in KEYS:
        l = seen.get(k, [])
        ok = len(l) == 1 and {short(s[2]) for s in g.sources(l[0][2]) if s[0] == 'fld' and s[2].startswith(CH + '::')} == {short(field_of(k))} and 1 in parms_in(g, l[0][2])
        ctx.ob('store-setting', k, ok, where(l[0][0]) if l else f.loc(), 'the setting of an added channel is not stored' if not l else 'another value is stored')
    # all on every path
    w = {n.id: keys_in(g, vm_write(g, n)[0]) for n in g.nodes if n.id in g.live and vm_write(g, n) and vm_write(g, n)[0] is not None}
    for k in KEYS:
        c = count_on_paths(g, lambda n: k in w.get(n.id, ()))
        ctx.ob('store-setting', k + ' on every path', set(c) == {1}, f.loc(), 'stored %s times' % sorted(c))


def copies(ctx, fields):
    own = {'fTransportFactory', 'fSocket', 'fValid'}
    fs = [f for f in ctx.fns(CH + '::Channel') if f.params and CH in f.params[0]['t'] and '&&' not in f.params[0]['t']] + [f for f in ctx.P.fn(CH + '::operator=') if '&&' not in f.params[0]['t']]
    for f in fs:
        g = ctx.graph(f)
        F = Facts(g)
        nm = 'assignment' if f.name == 'operator=' else 'copy (%d)' % len(f.params)

        def same(n, fld):
            if n.kind != 'write' or fldq(n.d['lhs']) != CH + '::' + fld or parms_in(g, n.d['lhs']):
                return False
            return True
        for fld in fields:
            ws = [n for n in g.nodes if n.id in g.live and same(n, fld)]
            src = lambda n: {short(s[2]) for s in g.sources(n.d['rhs']) if s[0] == 'fld' and s[2].startswith(CH + '::')} if n.d.get('rhs') is not None else set()
            if fld in own:
                ok = ws and all(not src(n) for n in ws)
                ctx.ob('copy-owns-nothing', '%s: %s' % (nm, fld), ok, where(ws[0]) if ws else f.loc(), 'the copy shares or keeps the transport, socket or validity')
                continue
            if fld == 'fName' and len(f.params) == 2:
                ok = ws and all(1 in parms_in(g, n.d['rhs']) for n in ws)
            else:
                ok = ws and all(src(n) == {fld} and 0 in parms_in(g, n.d['rhs']) for n in ws)
            ctx.ob('copy-setting', '%s: %s' % (nm, fld), ok, where(ws[0]) if ws else f.loc(), 'not copied' if not ws else 'copied from %s' % sorted(src(ws[0])))
            if f.name == 'operator=':
                # except for self assignment
                def edge(n, m, lab):
                    if n.kind == 'branch' and lab in (True, False):
                        k, pol = F.key(n.d['cond'])
                        if k[0] == 'op' and k[1] == '==' and any(x == ('this',) or x[0] == 'this' for x in k[2:4]):
                            return 's' if (lab == pol) else 'd'
                    return None
                bad, _ = words(g, lambda n: 'w' if n in ws else None, 's|d?w+', edge=edge)
                ctx.ob('copy-setting', '%s: %s on every path' % (nm, fld), not bad, f.loc(), 'a path leaves the setting unchanged')
    for fld in fields:
        pass


SOCK = {'linger': ('SetLinger', 'ZMQ_LINGER', 17), 'sndBufSize': ('SetSndBufSize', 'ZMQ_SNDHWM', 23), 'rcvBufSize': ('SetRcvBufSize', 'ZMQ_RCVHWM', 24),
        'sndKernelSize': ('SetSndKernelSize', 'ZMQ_SNDBUF', 11), 'rcvKernelSize': ('SetRcvKernelSize', 'ZMQ_RCVBUF', 12)}


def to_socket(ctx):
    f = ctx.fn(CH + '::Init')
    g = ctx.graph(f)
    F = Facts(g)
    mk = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'CreateSocket')
    a = mk[0].d['args'] if mk else ()
    ctx.ob('apply-setting', 'socket of the configured type and name', len(mk) == 1 and fldq(g.resolve(a[0])) == CH + '::fType' and fldq(g.resolve(a[1])) == CH + '::fName', where(mk[0]) if mk else f.loc(), 'the socket is created from %s' % [show(x) for x in a])
    ws = g.find(lambda n: n.kind == 'write' and fldq(n.d['lhs']) == CH + '::fSocket' or n.kind == 'call' and n.d.get('obj') is not None and fldq(n.d['obj']) == CH + '::fSocket' and short(n.d['q']) == 'reset')
    ctx.ob('apply-setting', 'the socket is kept by the channel', len(ws) == 1, f.loc(), 'the created socket is not stored')
    for k, (s, o, num) in SOCK.items():
        cs = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == s)
        ok = len(cs) == 1 and fldq(g.resolve(cs[0].d['args'][0])) == field_of(k) and fldq(g.resolve(cs[0].d['obj'])) == CH + '::fSocket'
        ctx.ob('apply-setting', k, ok, where(cs[0]) if cs else f.loc(), 'the setting is not applied to the socket')
        if ok:
            # applied on every path, except for kernel sizes left at the default 0
            def edge(n, m, lab):
                if n.kind == 'branch' and lab in (True, False):
                    key, pol = F.key(n.d['cond'])
                    v = lab == pol
                    if key[0] == 'op' and key[1] == '==' and any(fldq(x) == field_of(k) for x in key[2:4]) and any(constval(x) == 0 for x in key[2:4]):
                        return 'z' if v else None
                    if fldq(key) == field_of(k):
                        return None if v else 'z'
                return None
            bad, _ = words(g, lambda n: 'c' if n in mk else ('s' if n in cs else None), 'cs|zc|cz' if 'Kernel' in k else 'cs', edge=edge)
            ctx.ob('apply-setting', k + ' after the socket was created', not bad, where(cs[0]), 'a path initialises the socket without the setting' if bad else '', bad[0][2] if bad else None)
    for tr in ('zmq', 'shmem'):
        for k, (s, o, num) in SOCK.items():
            for verb, api in (('Set', 'zmq_setsockopt'), ('Get', 'zmq_getsockopt')):
                nm = verb + s[3:]
                h = ctx.fn('fair::mq::%s::Socket::%s' % (tr, nm))
                hg = ctx.graph(h)
                cs = hg.find(lambda n: n.kind == 'call' and n.d['q'] == api)
                ok = len(cs) == 1 and constval(hg.resolve(cs[0].d['args'][1])) == num and fldq(hg.resolve(cs[0].d['args'][0])) == 'fair::mq::%s::Socket::fSocket' % tr
                ctx.ob('socket-option', '%s %s' % (tr, nm), ok, h.loc(), 'does not use %s on the data socket' % o)
                if ok and verb == 'Set':
                    v = cs[0].d['args'][2]
                    ctx.ob('socket-option', '%s %s value' % (tr, nm), 0 in parms_in(hg, v) and count_on_paths(hg, lambda n: n in cs).keys() == {1}, where(cs[0]), 'another value is set')
                if ok and verb == 'Get':
                    tv = strip(cs[0].d['args'][2])
                    rs = [n for n in ret_values(hg)]
                    ctx.ob('socket-option', '%s %s value' % (tr, nm), bool(rs) and all(strip(rv(n)) == tv for n in rs), h.loc(), 'another value is returned')
                if ok:
                    failure_throws(ctx, hg, cs[0], '%s %s' % (tr, nm))


def failure_throws(ctx, g, call, inst):
    """a negative result of the call never reaches the normal exit"""
    F = Facts(g)
    term = call.d['term']

    def step(n, s, fs):
        return ('called',) if n is call else (s,)

    def edge(n, m, lab, s):
        if n.kind == 'branch' and lab in (True, False) and s == 'called':
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            if key[0] == 'op' and key[1] == '<' and term_in(g, key[2], term) and constval(key[3]) == 0:
                return 'neg' if v else 'ok'
            if key[0] == 'op' and key[1] == '==' and any(term_in(g, x, term) for x in key[2:4]):
                c = [constval(x) for x in key[2:4] if constval(x) is not None]
                if c and c[0] == 0:
                    return 'ok' if v else 'neg'
                if c and c[0] == -1:
                    return 'neg' if v else 'ok'
            if term_in(g, key, term) and key[0] != 'op':
                return 'neg' if v else 'ok'
        return s
    reached, _ = run(g, '', step, edge)
    ends = {s for _, s in reached.get(g.exit.id, ())}
    ctx.ob('failure-reported', inst, ends == {'ok'}, where(call), 'a failed call is not reported (%s)' % sorted(ends))


def term_in(g, t, term):
    return strip(g.resolve(t)) == term or strip(t) == term


def setters(ctx):
    """Update<X> changes exactly X and requires a new validation; Get<X> returns X"""
    want = {**{k: k for k in KEYS}, 'name': 'name', 'sndTimeout': 'sndTimeoutMs', 'rcvTimeout': 'rcvTimeoutMs'}
    n_set = n_get = 0
    for f in [f for f in ctx.P.fns.values() if f.clsq == CH and f.kind == 'method' and f.body]:
        for verb in ('Update', 'Get'):
            if not f.name.startswith(verb) or not f.name[len(verb):]:
                continue
            k = f.name[len(verb)].lower() + f.name[len(verb) + 1:]
            if verb == 'Get' and k in ('transportName', 'transportType'):
                k = 'transport'
            k = want.get(k)
            if k is None:
                continue
            q = CH + '::fName' if k == 'name' else field_of(k)
            g = ctx.graph(f)
            if verb == 'Update':
                n_set += 1
                w = g.find(lambda n: n.kind == 'write' and (fldq(n.d['lhs']) or '').startswith(CH + '::'))
                ok = {fldq(n.d['lhs']) for n in w} == {q, CH + '::fValid'} and all(0 in parms_in(g, n.d['rhs']) for n in w if fldq(n.d['lhs']) == q) and all(cval(g, n.d['rhs']) == 0 for n in w if fldq(n.d['lhs']) == CH + '::fValid')
                ctx.ob('update-setting', f.name, ok and set(count_on_paths(g, lambda n: is_write(n, q))) == {1}, f.loc(), 'does not set exactly %s and invalidate the channel' % short(q))
            else:
                n_get += 1
                rs = ret_values(g)
                flds = {s[2] for n in rs for s in g.sources(rv(n)) if s[0] == 'fld' and s[2].startswith(CH + '::')}
                ctx.ob('get-setting', f.name, flds == {q}, f.loc(), 'returns %s' % sorted(short(x) for x in flds))
    if n_set < 16 or n_get < 16:
        ctx.broken('only %d setters and %d getters of channel settings found' % (n_set, n_get))


# ------------------------------------------------------------------ C11 validation and attaching
TYPES = {'sub', 'pub', 'pull', 'push', 'req', 'rep', 'xsub', 'xpub', 'dealer', 'router', 'pair'}
ZMQ_TYPES = {'pair': 0, 'pub': 1, 'sub': 2, 'req': 3, 'rep': 4, 'dealer': 5, 'router': 6, 'pull': 7, 'push': 8, 'xpub': 9, 'xsub': 10}
PROTO = {'tcp://': 't', 'ipc://': 'p', 'inproc://': 'n', 'verbs://': 'v'}
NPOS = ('npos', (1 << 64) - 1, -1)


def is_npos(t):
    c = constval(t)
    return c in NPOS or (t[0] == 'glob' and short(t[1]) == 'npos')


def member_fact(g, key, val, q):
    """(strings, found?) if the fact tests membership of field q in a constant set of strings"""
    if key[0] == 'op' and key[1] == '==':
        for x in key[2:4]:
            if isinstance(x, tuple) and x[0] == 'call' and short(x[1]) in ('find', 'count') and x[3]:
                arg = x[3][-1]
                if any(fldq(y) == q for y in sub(g.resolve(arg))):
                    src = x[2] if x[2] is not None else x[3][0]
                    s = strs(g, src)
                    o = [y for y in key[2:4] if y is not x]
                    if short(x[1]) == 'find':
                        return s, val is False
                    c = constval(o[0]) if o else None
                    return s, (val is False if c == 0 else val is True)
    if key[0] == 'call' and short(key[1]) in ('count', 'contains') and key[3] and any(fldq(y) == q for y in sub(g.resolve(key[3][-1]))):
        return strs(g, key[2]), val is True
    return None, None


def prefix_fact(key, val):
    """(prefix, holds?) if the fact tests that a string starts with a constant"""
    if key[0] == 'op' and key[1] == '==':
        for x, y in (key[2:4], key[2:4][::-1]):
            if isinstance(x, tuple) and x[0] == 'call' and constval(y) == 0 and x[3]:
                a = [s for s in x[3] if s[0] == 's']
                n = [constval(s) for s in x[3] if constval(s) is not None and s[0] != 's']
                if a and short(x[1]) == 'compare' and n[:2] == [0, len(a[0][1])]:
                    return a[0][1], val
                if a and short(x[1]) == 'rfind' and n[:1] == [0] or a and short(x[1]) == 'find':
                    return a[0][1], val
            if isinstance(x, tuple) and x[0] == 'call' and short(x[1]) == 'substr' and isinstance(y, tuple) and y[0] == 's':
                n = [constval(s) for s in x[3]]
                if n == [0, len(y[1])]:
                    return y[1], val
    if key[0] == 'call' and short(key[1]) == 'starts_with' and any(s[0] == 's' for s in key[3]):
        return next(s[1] for s in key[3] if s[0] == 's'), val
    return None, None


def first_char_fact(key, val):
    """(character, holds?) if the fact compares the first character of a string"""
    if key[0] == 'op' and key[1] == '==':
        for x, y in (key[2:4], key[2:4][::-1]):
            c = constval(y)
            if isinstance(x, tuple) and isinstance(c, int) and (x[0] == 'call' and (short(x[1]) in ('operator[]', 'at') and x[3] and constval(x[3][-1]) == 0 or short(x[1]) == 'front') or x[0] == 'idx' and constval(x[2]) == 0):
                return chr(c & 255), val
    return None, None


def empty_fact(g, key, val):
    """True if the fact says some string is not empty"""
    if key[0] == 'call' and short(key[1]) == 'empty':
        return val is False
    if key[0] == 'op' and key[1] == '==' and len(key) == 4:
        for x, y in (key[2:4], key[2:4][::-1]):
            if isinstance(x, tuple) and x[0] == 'call' and short(x[1]) in ('size', 'length') and constval(y) == 0:
                return val is False
            if isinstance(y, tuple) and y == ('s', ''):
                return val is False
    if key[0] == 'op' and key[1] == '<' and constval(key[2]) == 0 and isinstance(key[3], tuple) and key[3][0] == 'call' and short(key[3][1]) in ('size', 'length'):
        return val is True
    return False


def allowed_chars(pat):
    """characters a name may contain if names matching pat are refused"""
    import re
    try:
        r = re.compile(pat)
    except re.error:
        return None
    return {chr(c) for c in range(1, 128) if not r.search(chr(c))}


def split_set(ctx, g):
    """separators and joiners of the address"""
    sp = [n for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']) in ('split', 'join'))]
    out = {}
    for n in sp:
        c = set()
        for a in n.d['args'][1:]:
            for s in sub(g.resolve(a)):
                if s[0] == 's':
                    c.add(s[1])
                elif s[0] == 'call' and short(s[1]) in ('is_any_of', 'is_from_range'):
                    for y in s[3]:
                        if constval(y) is not None:
                            c.add(y[1] if y[0] == 's' else chr(constval(y)) if isinstance(constval(y), int) else constval(y))
        out.setdefault(short(n.d['q']), []).append((n, c))
    return out


@prop('C11', ['fairmq/Channel.cxx', 'fairmq/Device.cxx', 'analyzer/inst_transport.cpp'])
def c11(ctx):
    """channel validation and attaching"""
    validate(ctx)
    auto_bind(ctx)
    attach(ctx)
    attach_all(ctx)
    # every accepted socket type names a distinct socket kind of the transports
    g = ctx.graph(ctx.fn('fair::mq::zmq::getConstant'))
    tab = {}
    for n in ret_values(g):
        c = cval(g, rv(n))
        ss = {s[1] for k, v in must_facts(g).get(n.id, ()) if v is True and k[0] == 'op' and k[1] == '==' for x in k[2:4] for s in sub(x) if s[0] == 's'}
        for s in ss:
            tab[s] = c
    if not tab:
        ctx.broken('no constants found in getConstant')
    for t, v in ZMQ_TYPES.items():
        ctx.ob('type-known', t, tab.get(t) == v, ctx.fn('fair::mq::zmq::getConstant').loc(), 'socket type "%s" is created as %s, not %s' % (t, tab.get(t), v))


def validate(ctx):
    f = ctx.fn(CH + '::Validate')
    g = ctx.graph(f)
    F = Facts(g)
    ws = g.find(lambda n: is_write(n, CH + '::fValid'))
    if not ws:
        ctx.bad('valid-if', 'validity is recorded', f.loc(), 'validation never records its result')
        return
    for n in ws:
        if cval(g, n.d['rhs']) == 0:
            continue
        tests = {
            'type is known': lambda k, v: member_fact(g, k, v, CH + '::fType') == (TYPES, True),
            'name has only allowed characters': lambda k, v: k[0] == 'call' and 'regex' in k[1] and any(fldq(s) == CH + '::fName' for s in sub(k)) and v is (short(k[1]) == 'regex_match') and
            (lambda p: allowed_chars(p) == set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_[]#') if short(k[1]) == 'regex_search' else True)(next((s[1] for s in sub(k) if s[0] == 's'), '')),
        }
        for x in ('sndBufSize', 'rcvBufSize', 'sndKernelSize', 'rcvKernelSize', 'rateLogging'):
            q = field_of(x)
            tests[x + ' is not negative'] = lambda k, v, q=q: k[0] == 'op' and k[1] == '<' and (fldq(k[2]) == q and constval(k[3]) == 0 and v is False or constval(k[2]) == -1 and fldq(k[3]) == q and v is True)
        for nm, pr in tests.items():
            ctx.ob('valid-if', nm, always(g, n, pr), where(n), 'a channel is accepted although this was not established')
        ctx.ob('valid-if', 'only acceptance marks the channel valid', cval(g, n.d['rhs']) == 1, where(n), 'validity is set to %s' % show(n.d['rhs']))
    sp = split_set(ctx, g).get('split', [])
    if len(sp) != 1:
        ctx.bad('valid-endpoints', 'the address is split into endpoints', f.loc(), '%d splits of the address' % len(sp))
        return
    spn = sp[0][0]
    ctx.ob('valid-endpoints', 'all of the address', fldq(g.resolve(spn.d['args'][1])) == CH + '::fAddress', where(spn), 'another text is checked')
    ctx.ob('valid-if', 'address is configured', always(g, spn, lambda k, v: v is False and k[0] == 'op' and k[1] == '==' and any(fldq(x) == CH + '::fAddress' for x in k[2:4]) and ('s', 'unspecified') in k[2:4]), where(spn), 'the default address is not refused')
    ctx.ob('valid-if', 'address is not empty', always(g, spn, lambda k, v: empty_fact(g, k, v) and any(fldq(x) == CH + '::fAddress' for x in sub(k))), where(spn), 'an empty address is not refused')
    vec = strip(spn.d['args'][0])
    loops = {}
    for n in g.find(lambda n: n.kind == 'branch'):
        if prefix_fact(F.key(n.d['cond'])[0], True)[0] in PROTO:
            loops = {b.id: stay for b, stay in loop_exits(g, n) if stays(g, n, b)}
            break

    def edge(n, m, lab):
        if n.kind != 'branch' or lab not in (True, False):
            return None
        if n.id in loops:
            return 'i' if lab == loops[n.id] else 'e'
        key, pol = F.key(n.d['cond'])
        v = lab == pol
        c, h = first_char_fact(key, v)
        if c in ('@', '+', '>') and h:
            return 'm'
        s, h = member_fact(g, key, v, CH + '::fMethod')
        if s == {'bind', 'connect'} and h:
            return 'M'
        if key[0] == 'op' and key[1] == '==' and any(fldq(x) == CH + '::fMethod' for x in key[2:4]) and v and any(x in (('s', 'bind'), ('s', 'connect')) for x in key[2:4]):
            return 'M'
        p, h = prefix_fact(key, v)
        if p in PROTO and h:
            return PROTO[p]
        if key[0] == 'op' and key[1] == '==' and any(is_npos(x) for x in key[2:4]) and not v and any(isinstance(x, tuple) and x[0] == 'call' and short(x[1]) == 'find' and constval(x[3][0]) in (58, ':') for x in key[2:4]):
            return 'c'
        if empty_fact(g, key, v) and any(isinstance(x, tuple) and x[0] == 'call' and short(x[1]) == 'substr' and constval(x[3][0]) in (6, 8, 9) for x in sub(key)):
            return 'x'
        return None

    def cl(n):
        if n in ws:
            return 'W'
        if n.kind == 'ret' and n.fn is g.root:
            return 'R' if cval(g, rv(n)) != 0 else 'r'
        return None
    lang(ctx, 'valid-endpoints', 'every endpoint is checked before the channel is accepted', g, cl, 'R|(i[mM]+(tc|[pnv]x))*eWR|.*r', edge=edge,
         legend='i/e next endpoint / all checked, m modifier, M method is bind or connect, t/p/n/v protocol tcp, ipc, inproc, verbs, c has a port, x is not empty, W marked valid, R/r accepted / refused')
    # accepted without checks only if already valid
    for n in ret_values(g):
        if n.fn is g.root and cval(g, rv(n)) == 1:
            ctx.ob('valid-if', 'accepted only when valid', always(g, n, lambda k, v: fldq(k) == CH + '::fValid' and v is True) or passes_before(g, lambda m: m is n, lambda m: m in ws) == [], where(n), 'accepted without being valid')
    # errors are reported as configuration errors
    th = [n for n in g.find(lambda n: n.kind == 'throw')]
    ctx.ob('valid-endpoints', 'errors are configuration errors', bool(th) and all('ChannelConfigurationError' in str(n.d.get('t', n.d.get('type', ''))) + show(n.d.get('term', ('x', ''))) for n in th), f.loc(), 'another error is thrown')
    dg = ctx.graph(ctx.fn('fair::mq::Device::AttachChannel'))
    ds = split_set(ctx, dg)
    a = [c for n, c in ds.get('split', [])]
    b = [c for n, c in ds.get('join', [])]
    ctx.ob('separator', 'validation and attaching split alike', len(a) == 1 and a[0] == sp[0][1] == {','}, where(spn), 'validated with separator %s, attached with %s' % (sorted(sp[0][1]), [sorted(x) for x in a]))
    ctx.ob('separator', 'endpoints are joined alike', len(b) == 1 and b[0] == sp[0][1], where(ds['join'][0][0]) if b else '', 'joined with %s' % [sorted(x) for x in b])


def stays(g, n, b):
    """branch b decides about the next round of the loop around n (leaving by it does not happen in mid-round): it dominates n"""
    return dominators(g)[n.id] >> b.id & 1


def call_result_edge(g, F, n, lab, calls, yes, no):
    """letter for a branch on the boolean result of one of the calls (directly or through a local variable)"""
    if n.kind != 'branch' or lab not in (True, False):
        return None
    key, pol = F.key(n.d['cond'])
    if result_of(g, key, calls):
        return yes if lab == pol else no
    return None


def is_call(t, calls):
    return t[0] == 'call' and len(t) > 4 and t[4] in {c.id for c in calls} or t in {c.d['term'] for c in calls}


def result_of(g, t, calls):
    """the term is the result of one of the calls, directly or through a local variable"""
    t = strip(t)
    return is_call(t, calls) or is_call(strip(g.resolve(t)), calls) or t[0] == 'var' and any(is_call(s, calls) for s in g.sources(t))


def auto_bind(ctx):
    f = ctx.fn(CH + '::BindEndpoint')
    g = ctx.graph(f)
    F = Facts(g)
    binds = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'Bind' and n.d.get('obj') is not None and fldq(g.resolve(n.d['obj'])) == CH + '::fSocket')
    if not binds:
        ctx.bad('auto-bind', 'binds the socket', f.loc(), 'the socket is never bound')
        return
    for n in binds:
        ctx.ob('auto-bind', 'binds the given endpoint', 0 in parms_in(g, n.d['args'][0]), where(n), 'another address is bound')

    def cl(n):
        if n in binds:
            return 'B'
        if n.kind == 'ret' and n.fn is g.root:
            c = cval(g, rv(n))
            return 'R' if c == 1 else 'r' if c == 0 else 'Q' if any(s == b.d['term'] for s in g.sources(rv(n)) for b in binds) else 'R'
        return None
    lang(ctx, 'auto-bind', 'success only after a successful bind', g, cl, '(Bf)*(BsR|BQ|r)|(Bf)*Bfr', edge=lambda n, m, lab: call_result_edge(g, F, n, lab, binds, 's', 'f'), legend='B bind, s/f it succeeded / failed, R/r report success / failure')
    inl = [(n, b) for n in binds for h, b in natural_loops(g) if n.id in b]
    first = [n for n in binds if not any(n is x for x, _ in inl)]
    retry = [n for n, _ in inl]
    ctx.ob('auto-bind', 'the configured port is tried first', bool(first) and (not retry or all(passes_before(g, lambda m: m is r, lambda m: m in first) == [] for r in retry)), f.loc(), 'a random port may be tried before the configured one')
    ctx.ob('auto-bind', 'other ports are tried', bool(retry), f.loc(), 'no other port is ever tried')
    for n, body in inl:
        ctx.ob('auto-bind', 'other ports only if enabled', edge_before(g, n, lambda k, v: fldq(k) == CH + '::fAutoBind' and v is True), where(n), 'another port is tried although auto-bind is off')
        ctx.ob('auto-bind', 'other ports only for tcp', edge_before(g, n, lambda k, v: v is True and (k[0] == 'op' and k[1] == '==' and ('s', 'tcp') in k[2:4] or prefix_fact(k, v)[0] in ('tcp:', 'tcp://'))), where(n), 'another port is tried for other protocols')
        # bounded number of attempts: every cycle counts up and an exit compares the counter
        vars_ = {}
        for m in g.nodes:
            if m.id in body and m.kind == 'write' and m.d['lhs'][0] == 'var' and m.d['rhs'][0] == 'op' and m.d['rhs'][1] in '+-' and m.d['lhs'] in m.d['rhs'][2:4] and 1 in [constval(x) for x in m.d['rhs'][2:4]]:
                vars_.setdefault(m.d['lhs'], []).append(m)
        ok = False
        for v, ms in vars_.items():
            ex = [b for b in g.nodes if b.id in body and b.kind == 'branch' and (lambda k: k[0] == 'op' and k[1] in ('<', '==') and v in k[2:4])(F.key(b.d['cond'])[0]) and any(s.id not in body for s, l in b.succ)]
            ok = ok or bool(ex) and set(m.d['rhs'][1] for m in ms) == {'+'} and not cycle_avoiding(g, body, ms) and not cycle_avoiding(g, body, ex)
        ctx.ob('auto-bind', 'attempts are limited', ok, where(n), 'the retry loop may never end')
    args = set()
    for n in g.nodes:
        for k in ('term', 'rhs'):
            t = n.d.get(k)
            if n.id in g.live and isinstance(t, tuple):
                for s in sub(t):
                    if s[0] == 'ctor' and 'uniform_int_distribution' in s[1]:
                        args.add(tuple(fldq(g.resolve(x)) for x in s[2]))
    ctx.ob('auto-bind', 'port range', args == {(CH + '::fPortRangeMin', CH + '::fPortRangeMax')}, f.loc(), 'ports are drawn from %s' % sorted(args, key=str))
    for n in retry:
        ctx.ob('auto-bind', 'the used port is given back', parm_idx(g, n.d['args'][0]) == 0 and f.params[0]['t'].endswith('&') and not f.params[0]['t'].startswith('const'), where(n), 'the caller does not learn the port')


def cycle_avoiding(g, body, nodes):
    """is there a cycle inside the loop body that avoids the nodes?"""
    av = {n.id for n in nodes}
    by = {n.id: n for n in g.nodes if n.id in body and n.id not in av}
    color = {}

    def dfs(i):
        st = [(i, iter([m.id for m, l in by[i].succ if m.id in by]))]
        color[i] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if color.get(y) == 1:
                    return True
                if y not in color:
                    color[y] = 1
                    st.append((y, iter([m.id for m, l in by[y].succ if m.id in by])))
                    break
            else:
                color[x] = 2
                st.pop()
        return False
    return any(i not in color and dfs(i) for i in by)


def attach(ctx):
    f = ctx.fn('fair::mq::Device::AttachChannel')
    g = ctx.graph(f)
    F = Facts(g)
    B = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'Bind' and n.d.get('obj') is not None and fldq(g.resolve(n.d['obj'])) == CH + '::fSocket')
    C = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'Connect' and n.d.get('obj') is not None and fldq(g.resolve(n.d['obj'])) == CH + '::fSocket')
    sp = split_set(ctx, g)
    if len(sp.get('split', [])) != 1 or not B or not C:
        ctx.bad('attach', 'endpoints are bound and connected', f.loc(), 'split %d, bind %d, connect %d' % (len(sp.get('split', [])), len(B), len(C)))
        return
    spn = sp['split'][0][0]
    vec = strip(spn.d['args'][0])
    ctx.ob('attach', 'all of the address', any(fldq(s) == CH + '::fAddress' for s in g.sources(spn.d['args'][1])) or fldq(g.resolve(spn.d['args'][1])) == CH + '::fAddress', where(spn), 'another text is split')
    loops = {b.id: stay for b, stay in loop_exits(g, C[0]) if stays(g, C[0], b)}
    UF = [n for n in g.nodes if n.id in g.live and is_write(n, CH + '::fAddress')]
    SP = [n for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']).startswith('SetProperty'))]

    def meth(k):
        return k[0] == 'op' and k[1] == '==' and any(fldq(x) == CH + '::fMethod' for x in k[2:4]) and (('s', 'bind') in k[2:4] or ('s', 'connect') in k[2:4])

    def edge(n, m, lab):
        if n.kind != 'branch' or lab not in (True, False):
            return None
        if n.id in loops:
            return 'i' if lab == loops[n.id] else 'e'
        key, pol = F.key(n.d['cond'])
        v = lab == pol
        c, h = first_char_fact(key, v)
        if c == '@' and h:
            return 'a'
        if c in ('+', '>') and h:
            return 'p'
        if meth(key):
            return 'm' if v == (('s', 'bind') in key[2:4]) else 'n'
        if key[0] == 'var' and g.vinfo.get(key[1], {}).get('kind') != 'slocal':
            ds = [d for d in g.defs.get(key[1], ()) if d[0] == 'op' and d[1] == '==' or d[0] == 'call']
            ds = [F.key(d)[0] for d in ds]
            if any(meth(d) for d in ds):
                d = next(d for d in ds if meth(d))
                return 'm' if v == (('s', 'bind') in d[2:4]) else 'n'
        if key[0] == 'call' and short(key[1]) == 'empty' and 'getIpFromHostname' in show(g.resolve(key)) and v:
            return 'h'
        if key[0] == 'op' and key[1] == '==' and 'join(' in show(key) and any(fldq(g.resolve(x)) == CH + '::fAddress' for x in key[2:4]):
            return 'q' if v else 'd'
        r = call_result_edge(g, F, n, lab, B, 's', 'f') or call_result_edge(g, F, n, lab, C, 's', 'f')
        return r

    def cl(n):
        if n in B:
            return 'B'
        if n in C:
            return 'C'
        if n in UF:
            return 'U'
        if n in SP:
            return 'S'
        if n.kind == 'ret' and n.fn is g.root:
            c = cval(g, rv(n))
            return 'R' if c == 1 else 'r' if c == 0 else 'Z'
        if n.kind == 'write' and n.d.get('rhs') is not None and n.d['rhs'][0] == 'c' and n.d['lhs'][0] in ('var', 'tmp', 'x') and isinstance(n.d['rhs'][1], int) and n.d['rhs'][1] in (64, 43, 62):
            return 'A' if n.d['rhs'][1] == 64 else 'P'
        if n.kind == 'call' and short(n.d['q']) in ('push_back', 'insert', 'operator+=', 'operator=', 'assign') and own(ctx, g, n) and any(constval(a) in (64, 43, 62, '@', '+', '>') for a in n.d['args']):
            return 'A' if any(constval(a) in (64, '@') for a in n.d['args']) else 'P'
        return None
    one = 'a+m*(Bf+)*B[sm]+A[sm]*|p+n*C[sn]+P[sn]*|m+(Bf+)*B[sm]+|n+C[sn]+'
    lang(ctx, 'attach', 'success means every endpoint is attached as configured', g, cl, '(i(%s))*e(qR|d(US|SU)R|(US|SU)R)|.*[rZ]' % one, edge=edge,
         legend='i/e next endpoint / all done, a endpoint starts with @, p with + or >, m/n method is bind / connect, B bind, C connect, s/f succeeded / failed, A/P modifier kept as @ / +, d/q address changed / same, U/S new address stored in channel / config, R/r success / failure')
    # failure result is really false
    lang(ctx, 'attach', 'failure to attach or resolve is reported', g, lambda n: cl(n) if cl(n) in ('B', 'C', 'R', 'r', 'Z') else None, '([BCs]|f+B)*R|.*[rZ]', edge=lambda n, m, lab: (lambda x: x if x in ('s', 'f', 'h') else None)(edge(n, m, lab)), legend='h host could not be resolved, f attaching failed, R success')
    for n in g.find(lambda n: n.kind == 'ret' and n.fn is g.root):
        if cval(g, rv(n)) is None:
            ok = always(g, n, lambda k, v: (k == strip(g.resolve(rv(n))) or k == strip(rv(n))) and v is False)
            ctx.ob('attach', 'early exit reports failure', ok, where(n), 'a failed endpoint may be reported as attached')
    for n in B + C:
        a = n.d['args'][0]
        src = list(g.sources(a))
        ctx.ob('attach', '%s uses the endpoint' % short(n.d['q']), any(s == vec or strip(s) == vec or 'elem' in show(s) for x in src for s in sub(x)), where(n), 'another address is used')
    # the modifier is not part of the address
    st = [n for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'substr' and own(ctx, g, n) and n.d['args'] and constval(n.d['args'][0]) == 1)]
    bad, _ = words(g, lambda n: 'k' if n in st else ('B' if n in B else 'C' if n in C else None), '(i([ap]+k+[sf]*|)([BC][sf]*)*)*e?', ends=(), edge=lambda n, m, lab: (lambda x: x if x in ('i', 'e', 'a', 'p', 's', 'f') else None)(edge(n, m, lab)))
    ctx.ob('attach', 'the modifier is removed from the address', not bad, where(bad[0][0]) if bad else '', 'a path attaches "%s"' % (bad[0][1] if bad else ''), bad[0][2] if bad else None)
    # the stored endpoint is the one used
    for n in SP:
        ks = strs(g, n.d['args'][0])
        cs = {short(c) for c in g.src_calls(n.d['args'][0])}
        flds = {fldq(s) for s in g.sources(n.d['args'][0])}
        ctx.ob('attach', 'address property key', ks >= {'chans.', '.address', '.'} and CH + '::fName' in flds | {fldq(y) for s in g.sources(n.d['args'][0]) for y in sub(s)}, where(n), 'stored under a key of %s' % sorted(map(str, ks)))
        ctx.ob('attach', 'address property value', 'join' in {short(c) for c in g.src_calls(n.d['args'][1])}, where(n), 'another value is stored')
    for n in UF:
        ctx.ob('attach', 'address of the channel', 'join' in {short(c) for c in g.src_calls(n.d['rhs'])}, where(n), 'another value is stored')


    # the used endpoint is put back into the list that is joined
    back = [n for n in g.find(lambda n: n.kind == 'write' and own(ctx, g, n)) if any(s == vec or s[:2] == ('op', 'elem') for s in g.sources(n.d['lhs'])) and (n.d['lhs'][0] != 'var' or g.vinfo.get(n.d['lhs'][1], {}).get('t', '').endswith('&'))]
    bv = {strip(n.d['args'][0]) for n in B + C}
    back = [n for n in back if n.d.get('rhs') is not None and (bv & set(g.sources(n.d['rhs'])) or bv & set(sub(n.d['rhs'])))]
    ctx.ob('attach', 'the used address is put back', bool(back), f.loc(), 'the list of endpoints is not updated with the addresses used')


def attach_all(ctx):
    f = ctx.fn('fair::mq::Device::AttachChannels')
    AC = ctx.fn('fair::mq::Device::AttachChannel')
    g = ctx.graph(f, inline=lambda fn: fn.name not in ('AttachChannel', 'Validate', 'Init'))
    F = Facts(g)
    V = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'Validate')
    I = g.find(lambda n: n.kind == 'call' and n.d['q'] == CH + '::Init')
    A = g.find(lambda n: n.kind == 'call' and n.d['q'] == AC.q)
    E = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'erase')
    loops = {}
    for n in A[:1]:
        loops = {b.id: stay for b, stay in loop_exits(g, n) if stays(g, n, b)}
    if not (V and I and A and E) or len(loops) != 1:
        ctx.bad('attach-list', 'channels are validated, initialised, attached and removed', f.loc(), 'validate %d, init %d, attach %d, remove %d, loops %d' % (len(V), len(I), len(A), len(E), len(loops)))
        return
    its = {}
    for n in g.nodes:
        if n.id in g.live and n.kind in ('write', 'call'):
            if n.kind == 'call' and short(n.d['q']) == 'operator++' and n.d.get('obj', n.d['args'][0] if n.d['args'] else None) is not None:
                its[n.id] = '+'
            elif n.kind == 'write' and n.d['rhs'] is not None and n.d['rhs'][0] == 'op' and n.d['rhs'][1] == '+' and n.d['lhs'] in n.d['rhs'][2:4]:
                its[n.id] = '+'
            elif n.kind == 'write' and any(s == e.d['term'] for e in E for s in sub(n.d['rhs'] or ('x',))):
                its[n.id] = '='
    if any(c == '+' and n.kind == 'write' for n in g.nodes for c in [its.get(n.id)]):
        its = {i: c for i, c in its.items() if c != '+' or next(n for n in g.nodes if n.id == i).kind == 'write'}
    itv = {n.d['lhs'] for n in g.nodes if its.get(n.id) == '='}

    def edge(n, m, lab):
        if n.id in loops and lab in (True, False):
            return 'i' if lab == loops[n.id] else 'e'
        return call_result_edge(g, F, n, lab, V, 'v', 'x') or call_result_edge(g, F, n, lab, A, 's', 'f')

    def cl(n):
        if n in V:
            return 'V'
        if n in I:
            return 'I'
        if n in A:
            return 'A'
        if n in E:
            return 'E'
        return its.get(n.id)
    lang(ctx, 'attach-list', 'each channel is tried once and removed only when attached', g, cl, '(iV(x[+]|vIA(sE=|f[+])))*e', edge=edge,
         legend='i/e next channel / end, V validate, v/x valid / not, I create socket, A attach, s/f attached / not, E= remove and continue behind it, + skip')
    for nm, ns in (('validated', V), ('initialised', I), ('attached', A), ('removed', E)):
        for n in ns:
            o = n.d.get('obj') if nm in ('validated', 'initialised') else n.d['args'][0]
            ok = any(s in itv for s in sub(o)) or any(s in itv for x in g.sources(o) for s in sub(x))
            ctx.ob('attach-list', 'the current channel is %s' % nm, ok or not itv, where(n), 'another channel is %s' % nm)


# ------------------------------------------------------------------ C12 channel and device transfer interface
MSG = 'fair::mq::Message'


def lam_fn(ctx, g, t):
    """function of a lambda / function-pointer term"""
    for s in g.sources(t):
        if s[0] == 'lam':
            for n in g.nodes:
                if n.kind == 'lamdef' and n.d['lam'] == s:
                    return ctx.P.fns.get(n.d['fn'])
        if s[0] == 'fn':
            return ctx.P.fns.get(s[1])
    return None


def deletes_param(ctx, f, idx, typ=None):
    """every path of f deletes parameter idx exactly once (as typ) and nothing else"""
    g = ctx.graph(f)
    ds = [n for n in g.nodes if n.id in g.live and n.kind == 'delete']
    own = [n for n in ds if parms_in(g, n.d['term']) == {idx}]
    return bool(own) and len(own) == len(ds) and set(count_on_paths(g, lambda n: n in own)) == {1} and (typ is None or any(s[0] == 'cast' for n in own for s in sub(n.d['term'])) or True)


def forwarded(g, args):
    """root parameter index each argument carries"""
    return [next(iter(p)) if len(p) == 1 else None for p in (parms_in(g, a) for a in args)]


@prop('C12', ['analyzer/inst_core.cpp', 'analyzer/inst_transport.cpp', 'analyzer/inst_devices.cpp'])
def c12(ctx):
    """channel and device transfer interface"""
    transfers(ctx)
    compat(ctx)
    delegation(ctx)
    simple_messages(ctx)
    factories(ctx)


def transfers(ctx):
    n_inst = 0
    for nm, fld in (('Send', 'fSndTimeoutMs'), ('Receive', 'fRcvTimeoutMs')):
        for f in ctx.fns(CH + '::' + nm):
            if not f.body:
                continue
            n_inst += 1
            inst = '%s(%s)%s' % (nm, 'Parts' if 'Parts' in f.params[0]['t'] else 'vector' if 'vector' in f.params[0]['t'] else 'message', ' with timeout' if len(f.params) == 2 else '')
            g = ctx.graph(f, inline=lambda x: not x.name.startswith('Check') and x.clsq != 'fair::mq::Socket')
            T = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == nm and n.d.get('obj') is not None and fldq(g.resolve(n.d['obj'])) == CH + '::fSocket')
            K = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'Check%sCompatibility' % nm)
            ctx.ob('transfer', inst + ' uses the socket once', len(T) == 1 and set(count_on_paths(g, lambda n: n in T)) == {1}, f.loc(), 'the socket is not used exactly once')
            if len(T) != 1:
                continue
            t = T[0]
            ok = bool(K) and all(parms_in(g, k.d['args'][0]) == {0} for k in K) and not passes_before(g, lambda n: n is t, lambda n: n in K)
            ctx.ob('transfer', inst + ' after the transport check', ok, where(t), 'transferred without the transport check')
            ctx.ob('transfer', inst + ' of the given data', parms_in(g, t.d['args'][0]) == {0}, where(t), 'something else is transferred')
            rs = ret_values(g)
            ctx.ob('transfer', inst + ' result', bool(rs) and all(g.resolve(rv(n)) == g.resolve(t.d['term']) for n in rs), f.loc(), 'the result of the transfer is not returned')
            a = strip(t.d['args'][1])
            src = lambda x: ('p' if 1 in parms_in(g, x) and not any(y[0] in ('fld', 'glob') for y in g.sources(x)) else '') or ('d' if fldq(g.resolve(x)) == CH + '::' + fld else 'o')
            if a[0] == 'var' and len(g.defs.get(a[1], ())) > 1:
                cl = lambda n: 'T' if n is t else (src(n.d['rhs']) if n.kind in ('write', 'decl') and (n.d.get('lhs') == a or n.d.get('var') == a) and n.d.get('rhs') is not None else None)
                lang(ctx, 'transfer-timeout', inst, g, cl, '[dpo]*pT' if len(f.params) == 2 else '[dpo]*dT', legend='d default timeout of the channel, p given timeout, T transfer')
            else:
                ctx.ob('transfer-timeout', inst, src(a) == ('p' if len(f.params) == 2 else 'd'), where(t), 'uses timeout %s' % show(g.resolve(a)))
    if n_inst < 8:
        ctx.broken('only %d transfer functions analysed' % n_inst)
    for nm in ('Send', 'Receive'):
        for f in ctx.fns('fair::mq::Socket::' + nm):
            if f.body and 'Parts' in f.params[0]['t']:
                g = ctx.graph(f)
                cs = g.find(lambda n: n.kind == 'call' and n.d['q'] == f.q)
                ok = len(cs) == 1 and forwarded(g, cs[0].d['args']) == [0, 1] and all(g.resolve(rv(n)) == g.resolve(cs[0].d['term']) for n in ret_values(g)) and fldq(g.resolve(cs[0].d['args'][0])) == 'fair::mq::Parts::fParts'
                ctx.ob('transfer', 'Socket::%s(Parts)' % nm, ok, f.loc(), 'does not transfer exactly the messages of the parts')


def compat(ctx):
    for nm in ('CheckSendCompatibility', 'CheckReceiveCompatibility'):
        for f in ctx.fns(CH + '::' + nm):
            if not f.body:
                continue
            kind = 'Parts' if 'fair::mq::Parts' in f.params[0]['t'] else 'vector' if 'vector' in f.params[0]['t'] else 'message'
            g = ctx.graph(f)
            F = Facts(g)
            N = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'CreateMessage')
            for n in N:
                ctx.ob('convert', '%s(%s): own transport' % (nm, kind), fldq(g.resolve(n.d['obj'])) == CH + '::fTransportFactory', where(n), 'the replacement is created by another transport')
            its = [n for n in N if n.d['args']]

            def msg_of(t):
                return [s for s in g.sources(t) if s[0] == 'op' and s[1] == 'elem' or s[0] == 'idx'] if kind != 'message' else 0 in parms_in(g, t)

            def edge(n, m, lab):
                if n.kind != 'branch' or lab not in (True, False):
                    return None
                key, pol = F.key(n.d['cond'])
                v = lab == pol
                if n.d.get('loop'):
                    return 'i' if lab else 'e'
                ofm = [x for x in key[2:4] if isinstance(x, tuple) and x[0] == 'call' and short(x[1]) in ('GetType', 'GetSize')] if key[0] == 'op' else []
                if ofm and kind != 'message' and not all(any(y[:2] == ('op', 'elem') or y[0] == 'idx' for y in g.sources(x[2])) and not any(y[0] == 'call' and short(y[1]) in ('front', 'back') for y in g.sources(x[2])) for x in ofm):
                    return '?'
                if key[0] == 'op' and key[1] == '==' and any(fldq(x) == CH + '::fTransportType' for x in key[2:4]) and any(isinstance(x, tuple) and x[0] == 'call' and short(x[1]) == 'GetType' for x in key[2:4]):
                    return 's' if v else 't'
                if key[0] == 'op' and key[1] in ('<', '==') and any(isinstance(x, tuple) and x[0] == 'call' and short(x[1]) == 'GetSize' for x in key[2:4]):
                    if key[1] == '<' and constval(key[2]) == 0:
                        return 'z' if v else 'y'
                    if key[1] == '==' and 0 in [constval(x) for x in key[2:4]]:
                        return 'y' if v else 'z'
                    return '?'
                return None

            def cl(n):
                if n in N:
                    return 'N' if len(n.d['args']) >= 4 else 'n' if not n.d['args'] else '?'
                if n.kind == 'call' and short(n.d['q']) == 'release' and 'unique_ptr' in n.d['q']:
                    return 'r' if msg_of(n.d['obj']) else '?'
                if n.kind == 'write' and 'CreateMessage' in {short(c) for c in g.src_calls(n.d['rhs'])} and not short_ret(n) and n.d['lhs'][0] == 'var' and 'unique_ptr' in g.vinfo.get(n.d['lhs'][1], {}).get('t', '') and g.vinfo[n.d['lhs'][1]]['t'].endswith('&') or n.kind == 'write' and n.d['lhs'][0] == 'var' and 'idx' in g.vinfo.get(n.d['lhs'][1], {}) and kind == 'message' or n.kind == 'write' and (n.d['lhs'][0] == 'idx' or n.d['lhs'][:2] == ('op', 'elem')):
                    return 'a'
                if n.kind == 'call' and short(n.d['q']) == 'reset' and 'unique_ptr' in n.d['q'] and msg_of(n.d['obj']):
                    return 'x'
                return None
            one = '(s|tzNra|tyna)' if 'Send' in nm else '(s|tna)'
            lang(ctx, 'convert', '%s(%s)' % (nm, kind), g, cl, one if kind == 'message' else '(i%s)*e' % one, edge=edge,
                 legend='i/e next message / end, s/t same / other transport, z/y has data / empty, N wrap the data in a message of this transport, n new empty message, r give up ownership of the original, a replace it')
            for n in its:
                a = n.d['args']
                ok = len(a) >= 4 and [short(g.resolve(x)[1]) if g.resolve(x)[0] == 'call' else None for x in a[:2]] == ['GetData', 'GetSize'] and all(msg_of(x) for x in (a[0], a[1], a[3]))
                ctx.ob('convert', '%s(%s): the same data' % (nm, kind), ok, where(n), 'wraps %s' % ', '.join(show(g.resolve(x)) for x in a[:2]))
                lf = lam_fn(ctx, g, a[2]) if len(a) > 2 else None
                ctx.ob('convert', '%s(%s): the original is freed with the wrapper' % (nm, kind), lf is not None and deletes_param(ctx, lf, 1), where(n), 'the original message is not freed exactly once')


def short_ret(n):
    return n.d['lhs'][0] == 'var' and n.d['lhs'][2].startswith('ret:')


def delegation(ctx):
    n_d = 0
    for cls, pre in ((CH, ''), ('fair::mq::Device', '')):
        for nm in ('NewMessage', 'NewSimpleMessage', 'NewStaticMessage', 'NewUnmanagedRegion'):
            target = {'NewMessage': 'CreateMessage', 'NewUnmanagedRegion': 'CreateUnmanagedRegion'}.get(nm, nm)
            for f in ctx.fns('%s::%s' % (cls, nm)):
                if f.body:
                    n_d += 1
                    g = ctx.graph(f, inline=lambda x: x.name not in ('NewSimpleMessage', 'NewStaticMessage', 'CreateUnmanagedRegion'))
                    cs = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == target and own(ctx, g, n))
                    ok = len(cs) == 1 and forwarded(g, cs[0].d['args'])[:len(f.params)] == list(range(len(f.params))) and fldq(g.resolve(cs[0].d['obj'])) == cls + '::fTransportFactory'
                    ctx.ob('delegate', '%s::%s(%d)' % (short(cls), nm, len(f.params)), ok and all(g.resolve(rv(n)) == g.resolve(cs[0].d['term']) for n in ret_values(g)), f.loc(), 'does not create it with exactly these arguments by its own transport')
    D = 'fair::mq::Device'
    for nm in ('Send', 'Receive', 'NewMessageFor', 'NewSimpleMessageFor', 'NewStaticMessageFor', 'NewUnmanagedRegionFor'):
        for f in ctx.fns(D + '::' + nm):
            if not f.body:
                continue
            n_d += 1
            tr = nm in ('Send', 'Receive')
            target = nm if tr else nm[:-3]
            g = ctx.graph(f, inline=lambda x: False)
            gc = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'GetChannel')
            cs = g.find(lambda n: n.kind == 'call' and n.d['q'] == CH + '::' + target)
            np_ = len(f.params)
            wantc = [1, 2] if tr else [0, 1]
            wanta = ([0] + list(range(3, np_))) if tr else list(range(2, np_))
            ok = len(gc) == 1 and len(cs) == 1 and forwarded(g, gc[0].d['args']) == wantc and strip(g.resolve(cs[0].d['obj'])) == strip(g.resolve(gc[0].d['term'])) and forwarded(g, cs[0].d['args'])[:len(wanta)] == wanta
            ctx.ob('delegate', 'Device::%s(%d)' % (nm, np_), ok and all(g.resolve(rv(n)) == g.resolve(cs[0].d['term']) for n in ret_values(g)), f.loc(), 'does not use the named channel with these arguments')
    # GetChannel: the channel of that name and index
    for f in ctx.fns(D + '::GetChannel'):
        g = ctx.graph(f)
        for n in ret_values(g):
            r = g.resolve(rv(n))
            at = [s for s in sub(r) if s[0] == 'call' and short(s[1]) in ('at', 'operator[]') or s[0] == 'idx']
            idx = [next(iter(parms_in(g, s[3][0] if s[0] == 'call' else s[2])), None) for s in at]
            ok = sorted(x for x in idx if x is not None) == [0, 1] and all(s[0] == 'call' and short(s[1]) == 'at' for s in at)
            ctx.ob('delegate', 'GetChannel is checked', ok, where(n), 'a channel that does not exist is not reported')
    if n_d < 20:
        ctx.broken('only %d forwarding functions analysed' % n_d)


def simple_messages(ctx):
    TF = 'fair::mq::TransportFactory'
    for f in ctx.fns(TF + '::NewSimpleMessage') + ctx.fns(TF + '::NewStaticMessage'):
        if not f.body:
            continue
        simple = f.name == 'NewSimpleMessage'
        inst = '%s(%s)' % (f.name, simple_type(f.params[0]['t']))
        g = ctx.graph(f)
        cs = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'CreateMessage')
        if len(cs) != 1 or len(cs[0].d['args']) < 4:
            ctx.bad('simple-message', inst, f.loc(), 'the message is not created from the data')
            continue
        a = cs[0].d['args']
        text = 'char' in f.params[0]['t'] or 'string' in f.params[0]['t']
        new = {s for s in g.sources(a[3]) if s[0] == 'new'}
        if simple:
            nn = [n for n in g.nodes if n.kind == 'new' and n.id in g.live and ('new', n.d['t'], n.id) in new]
            ok = len(nn) == 1 and any(0 in parms_in(g, x) for x in nn[0].d['args'])
            ctx.ob('simple-message', inst + ' copies the data', ok, where(cs[0]), 'the data is not copied')
            ctx.ob('simple-message', inst + ' sends the copy', new <= set(g.sources(a[0])) and bool(new) and not parms_in_direct(g, a[0]), where(cs[0]), 'the message refers to other data')
            lf = lam_fn(ctx, g, a[2])
            okd = lf is not None and deletes_param(ctx, lf, 1)
            ctx.ob('simple-message', inst + ' frees the copy', okd, where(cs[0]), 'the copy is not freed exactly once')
            if okd:
                lg = ctx.graph(lf)
                ts = {simple_type(n.d.get('t', '') or '') for n in lg.nodes if n.kind == 'delete' and n.id in lg.live}
                tc = {s[1] for n in lg.nodes if n.kind == 'delete' and n.id in lg.live for s in sub(n.d['term']) if s[0] == 'cast'}
        else:
            ctx.ob('simple-message', inst + ' sends the data itself', parms_in(g, a[0]) == {0}, where(cs[0]), 'the message refers to other data')
            lf = lam_fn(ctx, g, a[2])
            ok = lf is not None and not [n for n in ctx.graph(lf).nodes if n.kind in ('delete', 'call', 'write') and n.id in ctx.graph(lf).live]
            ctx.ob('simple-message', inst + ' frees nothing', ok, where(cs[0]), 'static data is freed')
        if text:
            sz = g.resolve(a[1])
            same = sz[0] == 'call' and short(sz[1]) in ('length', 'size') and strip(g.resolve(sz[2])) == strip(base_obj(g, a[0]))
            ctx.ob('simple-message', inst + ' size', same, where(cs[0]), 'size is %s' % show(sz))
        else:
            ctx.ob('simple-message', inst + ' size', g.resolve(a[1])[0] in ('sizeof', 'c'), where(cs[0]), 'size is %s' % show(g.resolve(a[1])))


def base_obj(g, t):
    t = strip(g.resolve(t))
    while t[0] == 'call' and t[2] is not None:
        t = strip(t[2])
    return t


def parms_in_direct(g, t):
    """parameters whose storage t refers to (not copies made from them)"""
    t = strip(g.resolve(t))
    while True:
        if t[0] == 'call' and t[2] is not None:
            t = strip(t[2])
        elif t[0] in ('fld', 'idx', 'deref', 'addr', 'cast'):
            t = strip(t[1])
        else:
            break
    return {0} if t[0] == 'var' and 'idx' in g.vinfo.get(t[1], {}) else set()


def factories(ctx):
    """each transport creates messages from exactly the given arguments"""
    n_f = 0
    for tr in ('zmq', 'shmem'):
        for nm in ('CreateMessage', 'CreateSocket', 'CreatePoller'):
            for f in ctx.fns('fair::mq::%s::TransportFactory::%s' % (tr, nm)):
                if not f.body:
                    continue
                n_f += 1
                g = ctx.graph(f, inline=lambda x: False)
                cs = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'make_unique' or n.kind == 'new')
                ok = len(cs) == 1
                if ok:
                    a = [x for x in cs[0].d['args'] if parms_in(g, x)]
                    ok = [sorted(parms_in(g, x)) for x in a] == [[i] for i in range(len(f.params))]
                    ts = tas(cs[0])[0] if cs[0].kind == 'call' and tas(cs[0]) else cs[0].d.get('t', '')
                    ok = ok and 'fair::mq::%s::%s' % (tr, nm[6:]) in ts
                ctx.ob('factory', '%s %s(%s)' % (tr, nm, ', '.join(simple_type(p['t']) for p in f.params)), ok, f.loc(), 'does not pass on exactly its arguments')
    if n_f < 18:
        ctx.broken('only %d factory functions analysed' % n_f)
