"""C19 metadata of shared memory messages travels unchanged, C20 nothing outside the buffers is accepted, C39 buffers as large and aligned as requested."""
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .flow import constval
from .rules_transport import sockq, transfer_fns, UNIT
from .rules_shmmsg import M, MG, UR, SH, KEEP, inl, mfld, addr_of, region_of, Rel, msg_fns
from .witness import asserts

MH = 'fair::mq::shmem::MetaHeader'
UNITS = ['analyzer/inst_transport.cpp']


def fields(ctx):
    return [x['n'] for x in ctx.cls(MH)['fields']]


# ------------------------------------------------------------------ linear terms
def preds(g):
    if getattr(g, '_pred', None) is None:
        g._pred = {}
        for n in g.nodes:
            if n.id in g.live:
                for m, l in n.succ:
                    g._pred.setdefault(m.id, []).append(n)
    return g._pred


def reaching(g, at, v):
    """the only write of local v that reaches node at, or None"""
    P = preds(g)
    seen, wl, found = set(), [at], []
    while wl:
        n = wl.pop()
        for m in P.get(n.id, ()):
            if m.id in seen:
                continue
            seen.add(m.id)
            if m.kind == 'decl' and m.d.get('var') == v or m.kind == 'write' and m.d['lhs'] == v:
                found.append(m)
            elif m is g.entry:
                found.append(None)
            else:
                wl.append(m)
    return found[0] if len(found) == 1 else None


def lin(g, t, depth=0, at=None):
    """linear form {term: coefficient, 1: constant} of an integer/pointer term (pointers count bytes; only for char pointers and integers)"""
    t = g.resolve(t)
    c = constval(t)
    if c is None and t[0] == 'sizeof':
        c = t[2]
    if c is not None:
        return {1: c}
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
        a, b = lin(g, t[2], depth + 1, at), lin(g, t[3], depth + 1, at)
        s = 1 if t[1] == '+' else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v or k == 1}
    if t[0] == 'op' and t[1] == '*' and len(t) == 4:
        a, b = lin(g, t[2], depth + 1, at), lin(g, t[3], depth + 1, at)
        for x, y in ((a, b), (b, a)):
            if set(x) <= {1}:
                k = x.get(1, 0)
                return {z: v * k for z, v in y.items() if v * k or z == 1}
    if t[0] == 'var' and depth < 12 and at is not None and len(g.defs.get(t[1], ())) > 1:
        w = reaching(g, at, t)
        if w is not None and w.d.get('rhs') is not None and w.d['rhs'][0] != 'call':
            return lin(g, w.d['rhs'], depth + 1, w)
    if t[0] == 'var' and depth < 12:
        ds = g.defs.get(t[1], [])
        if len(ds) == 1 and ds[0] is not None and ds[0] != t and g.vinfo.get(t[1], {}).get('kind') != 'parm':
            return lin(g, ds[0], depth + 1)
    return {norm_call(g, t): 1}


def norm_call(g, t):
    """calls without their node number"""
    t = g.resolve(t)
    if isinstance(t, tuple) and t and t[0] == 'call':
        return ('call', t[1], norm_call(g, strip(g.resolve(t[2]))) if t[2] is not None else None, tuple(norm_call(g, a) for a in t[3]))
    if isinstance(t, tuple) and t and t[0] == 'op':
        return t[:2] + tuple(norm_call(g, a) if isinstance(a, tuple) else a for a in t[2:])
    return t


def diff(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}


# ------------------------------------------------------------------ positions inside the metadata message
class Layout:
    """abstract interpretation of the cursor arithmetic over the metadata message: every cursor is start + a + b*k bytes, every index a + b*k, in the k-th iteration of the element loop"""

    def __init__(self, ctx, g, heads, elem):
        self.ctx, self.g, self.elem = ctx, g, elem
        self.heads = heads      # loop branches (id -> label that stays)
        self.bodies = set()
        for h, b in natural_loops(g):
            if any(x in b for x in heads):
                # the innermost one around the branch
                pass
        best = None
        for h, b in natural_loops(g):
            if all(x in b for x in heads) and (best is None or len(b) < len(best)):
                best = b
        self.body = best or set()
        self.varying = set()
        for n in g.nodes:
            if n.id in self.body and n.kind == 'write' and n.d['lhs'][0] == 'var':
                self.varying.add(n.d['lhs'][1])
        # locals of one iteration are not carried along
        for n in g.nodes:
            if n.id in self.body and n.kind == 'decl' and n.d.get('var') and n.d['var'][0] == 'var':
                self.varying.discard(n.d['var'][1])

    def scale(self, v):
        t = (self.g.vinfo.get(v, {}).get('t') or '').replace('const ', '').strip()
        if not t.endswith('*'):
            return None
        t = t[:-1].strip()
        if 'MetaHeader' in t:
            return self.elem
        return {'unsigned long': 8, 'size_t': 8, 'std::size_t': 8, 'char': 1, 'unsigned char': 1, 'std::byte': 1, 'void': 1, 'uint8_t': 1, 'std::uint8_t': 1}.get(t)

    def ev(self, t, vals):
        """('p'|'i', a, b) or None"""
        g = self.g
        if t is None:
            return None
        c = constval(t)
        if c is not None:
            return ('i', c, 0)
        if t[0] == 'sizeof':
            return ('i', t[2], 0)
        if t[0] == 'var':
            for u, x in vals:
                if u == t[1]:
                    return x
            r = g.resolve(t)
            return self.ev(r, vals) if r != t else None
        if t[0] == 'call' and short(t[1]) in ('Data', 'zmq_msg_data'):
            return ('p', 0, 0)
        if t[0] == 'addr' and t[1][0] == 'deref':
            return self.ev(t[1][1], vals)
        if t[0] == 'addr' and t[1][0] == 'idx':
            return self.ev(('op', '+', t[1][1], t[1][2]), vals)
        if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
            a, b = self.ev(t[2], vals), self.ev(t[3], vals)
            if a is None or b is None:
                return None
            s = 1 if t[1] == '+' else -1
            k = 1
            if a[0] == 'p' or b[0] == 'p':
                if b[0] == 'p':
                    if s < 0 or a[0] == 'p':
                        return None
                    a, b = b, a
                    k = self.ptr_scale(t[3])
                else:
                    k = self.ptr_scale(t[2])
                if k is None:
                    # the start of the message, cast: by one word or by bytes
                    k = 8 if b[1:] == (1, 0) else 1
            return (a[0], a[1] + s * k * b[1], a[2] + s * k * b[2])
        if t[0] == 'op' and t[1] == '*' and len(t) == 4:
            a, b = self.ev(t[2], vals), self.ev(t[3], vals)
            if a and b and a[0] == b[0] == 'i':
                if b[2] == 0:
                    return ('i', a[1] * b[1], a[2] * b[1])
                if a[2] == 0:
                    return ('i', a[1] * b[1], a[1] * b[2])
            return None
        return None

    def ptr_scale(self, t):
        while t and t[0] == 'op':
            t = t[2]
        return self.scale(t[1]) if t and t[0] == 'var' else None

    def lv(self, t, vals):
        """position of an object expression"""
        if t[0] == 'deref':
            return self.ev(t[1], vals)
        if t[0] == 'idx':
            return self.ev(('op', '+', t[1], t[2]), vals)
        if t[0] == 'call' and short(t[1]) == 'operator[]':
            return None
        if t[0] == 'var':
            ds = self.g.defs.get(t[1], [])
            if len(ds) == 1 and ds[0] is not None and ds[0][0] in ('deref', 'idx'):
                return self.lv(ds[0], vals)
        return None

    def assign(self, vals, v, rhs):
        x = self.ev(rhs, vals) if rhs is not None else None
        d = {u: y for u, y in vals if u != v}
        if x is not None and abs(x[1]) <= 4096:
            d[v] = x
        return frozenset(d.items())

    def step(self, n, vals):
        g = self.g
        if n.kind == 'decl' and n.d.get('var') and n.d['var'][0] == 'var':
            return self.assign(vals, n.d['var'][1], n.d.get('rhs'))
        if n.kind == 'write' and n.d['lhs'][0] == 'var':
            return self.assign(vals, n.d['lhs'][1], n.d['rhs'])
        return vals

    def advance(self, vals, first):
        """the element loop is entered for another element: positions become relative to the new k"""
        out = {}
        for u, (k, a, b) in vals:
            if u in self.varying:
                st = self.elem if k == 'p' else 1
                if first:
                    out[u] = (k, a, st) if b == 0 else None
                else:
                    out[u] = (k, a - st, st) if b == st else None
                if out[u] is None or abs(out[u][1]) > 4096:
                    out.pop(u)
            elif not first or b == 0:
                out[u] = (k, a, b)
        # iteration locals do not survive
        return frozenset(out.items())


def hdr_value(g, t):
    """field -> term of a metadata header value"""
    t = strip(t)
    for _ in range(6):
        if t[0] == 'init' and len(t) > 2 and len(t[1]) == len(t[2]) and len(t[1]) > 1:
            return dict(zip(t[2], t[1]))
        if t[0] in ('init',) and len(t[1]) == 1:
            t = strip(t[1][0])
            continue
        if t[0] == 'ctor' and len(t[2]) == 1:
            t = strip(t[2][0])
            continue
        if t[0] == 'var':
            ws = {}
            for n in g.nodes:
                if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and strip(n.d['lhs'][1]) == t and n.d['lhs'][2].startswith(MH + '::'):
                    ws.setdefault(short(n.d['lhs'][2]), []).append(n.d['rhs'])
            ds = [d for d in g.defs.get(t[1], []) if d is not None]
            if ws:
                base = hdr_value(g, ds[0]) if len(ds) == 1 and strip(ds[0])[0] == 'init' and len(strip(ds[0])[1]) > 1 else {}
                for k, v in ws.items():
                    base[k] = v[0] if len(v) == 1 else None
                return base
            if len(ds) == 1:
                t = strip(ds[0])
                continue
            r = strip(g.resolve(t))
            if r != t:
                t = r
                continue
        break
    return None


def owner(g, t):
    """the message object expression a header field was read from"""
    t = strip(t)
    return t


def element_of(g, b, lay, vals):
    """the object is the message of the current iteration"""
    for s in [strip(b)] + [strip(x) for x in g.sources(b)] + [strip(g.resolve(b))]:
        for y in sub(s):
            if y[:2] == ('op', 'elem') and parm_idx(g, y[2]) == 0:
                return True
            if y[0] == 'call' and short(y[1]) in ('operator[]', 'at') and y[3]:
                i = lay.ev(y[3][0], vals)
                o = y[2] if y[2] is not None else y[3][0]
                if parm_idx(g, o) == 0 and i == ('i', 0, 1):
                    return True
            if y[0] == 'var' and y[1] in lay.varying:
                ds = [strip(d) for d in g.defs.get(y[1], []) if d is not None]
                if any(d[0] == 'call' and short(d[1]) in ('begin', 'cbegin') and parm_idx(g, d[2] if d[2] is not None else d[3][0]) == 0 for d in ds):
                    return True
            if y[0] == 'idx' and parm_idx(g, y[1]) == 0 and lay.ev(y[2], vals) == ('i', 0, 1):
                return True
    return False


def check_header(ctx, g, rule, inst, n, val, good_owner):
    """all fields of the header come from the same-named fields of the message"""
    fl = fields(ctx)
    h = hdr_value(g, val)
    if h is None:
        ctx.bad(rule, inst, where(n), 'what is sent is not the metadata of the message: %s' % show(val))
        return
    for x in fl:
        t = h.get(x)
        ok = t is not None
        if ok:
            r = strip(g.resolve(t))
            ok = r[0] == 'fld' and r[2] == M + '::' + x and good_owner(r[1])
            if not ok and strip(t)[0] == 'fld':
                r = strip(t)
                ok = r[2] == M + '::' + x and good_owner(r[1])
            if not ok and x == 'fSize':
                ok = r[0] == 'call' and short(r[1]) == 'GetSize' and r[2] is not None and good_owner(r[2])
        ctx.ob(rule, '%s %s' % (inst, x), ok, where(n), 'the sent metadata field %s is not that of the message%s' % (x, '' if t is None else ': %s' % show(t)))


def sent(ctx):
    """what is sent is a faithful copy of the metadata of all messages"""
    elem = None
    for tr, f, nm, multi in transfer_fns(ctx):
        if tr != 'shmem' or nm != 'Send':
            continue
        inst = 'Send%s' % (' parts' if multi else '')
        g = ctx.graph(f, inline=lambda fn: fn.clsq != 'fair::mq::zmq::ZMsg' and inl(fn))
        elem = next((y[2] for n in g.nodes for v in n.d.values() for y in (sub(v) if isinstance(v, tuple) else ()) if isinstance(y, tuple) and y[:1] == ('sizeof',) and y[1].endswith('MetaHeader')), 40)
        snd = g.find(lambda n: n.kind == 'call' and n.d['q'] in ('zmq_msg_send', 'zmq_send'))
        if not snd:
            ctx.bad('sent', inst, f.loc(), 'nothing is sent')
            continue
        first = snd[0]
        # loops that fill the message: around a write into it, before the send
        heads = {}
        for n in g.nodes:
            if n.id in g.live and (n.kind == 'call' and short(n.d['q']) == 'memcpy' or n.kind == 'new' or n.kind == 'write' and n.d['lhs'][0] in ('deref', 'idx')):
                if any(n.id in b and not any(s.id in b for s in snd) for h, b in natural_loops(g)):
                    for b, st in loop_exits(g, n):
                        if multi and whole_range(g, b, lambda t: parm_idx(g, t) == 0):
                            heads[b.id] = st
        lay = Layout(ctx, g, heads, elem)
        probs = {}

        def is_hdr(n):
            """(destination expression, header value) of a store of a whole header"""
            if n.kind == 'call' and short(n.d['q']) in ('memcpy', 'memmove'):
                a = n.d['args']
                return a[0], a[1], a[2]
            if n.kind == 'write' and n.d['lhs'][0] in ('deref', 'idx') and hdr_value(g, n.d['rhs']) is not None:
                l = n.d['lhs']
                return (l[1] if l[0] == 'deref' else ('op', '+', l[1], l[2])), n.d['rhs'], ('c', elem)
            if n.kind == 'new' and 'MetaHeader' in n.d['t'] and n.d['place']:
                return n.d['place'][0], n.d['init'], ('c', elem)
            return None

        headers = {}

        def step(n, s, fs):
            vals, ph, done = s
            h = is_hdr(n)
            if h and ph != 'sent':
                p = lay.ev(h[0], vals)
                if p is not None and p[0] == 'p':
                    i = lay.ev(h[2], vals)
                    want = ('p', 8, elem) if multi else ('p', 0, 0)
                    if multi and ph == 'in' and p == want or not multi and p == want:
                        if i != ('i', elem, 0):
                            probs[n.id] = 'not the whole metadata is copied'
                        headers[n.id] = (n, h[1], vals)
                        done = (done & 8) | min((done & 7) + 1, 2)
                    elif multi and ph == 'pre' and p == ('p', 0, 0) and i == ('i', 8, 0):
                        # the number of parts, copied
                        if count_ok(g, h[1]):
                            done = done | 8
                    else:
                        probs[n.id] = 'metadata is stored at byte %s of the message' % (show_pos(p))
                elif p is None and h and h[0] is not None and any(y[0] == 'call' and short(y[1]) in ('Data', 'zmq_msg_data') for x in g.sources(h[0]) for y in sub(x)):
                    probs[n.id] = 'metadata is not stored behind that of the previous part'
            elif n.kind == 'write' and n.d['lhs'][0] in ('deref', 'idx') and ph != 'sent':
                p = lay.lv(n.d['lhs'], vals)
                if p is not None and p[0] == 'p':
                    if multi and p == ('p', 0, 0) and count_ok(g, n.d['rhs']):
                        done = done | 8
                    else:
                        probs[n.id] = 'the metadata message is overwritten at byte %s' % show_pos(p)
            elif n in snd and ph != 'sent':
                if multi and (ph != 'post' or not done & 8):
                    probs[n.id] = 'sent before it is complete' if ph != 'post' else 'the number of parts is not sent'
                if not multi and done != 1:
                    probs[n.id] = 'the metadata is not sent' if not done else 'several headers are sent'
                ph = 'sent'
            return ((lay.step(n, vals), ph, done),)

        def edge(n, m, lab, s):
            vals, ph, done = s
            if ph != 'sent' and n.kind == 'branch' and n.id in heads and lab in (True, False):
                if lab == heads[n.id]:
                    if ph == 'in' and done & 7 != 1:
                        probs[n.id] = 'not exactly one header per part'
                    return lay.advance(vals, ph == 'pre'), 'in', done & 8
                if ph == 'in' and done & 7 != 1:
                    probs[n.id] = 'not exactly one header per part'
                return frozenset((u, x) for u, x in vals if x[2] == 0), 'post', done & 8
            return s
        if multi and not heads:
            ctx.bad('sent', inst, f.loc(), 'the metadata of not every part is sent')
            continue
        run(g, (frozenset(), 'pre', 0), step, edge)
        for k, w in sorted(probs.items()):
            ctx.bad('sent', inst, where(g.nodes[k]), w)
        if not probs:
            ctx.good('sent', inst)
        for n, val, vals in headers.values():
            if multi:
                check_header(ctx, g, 'sent-field', inst, n, val, lambda b: element_of(g, b, lay, vals))
            else:
                check_header(ctx, g, 'sent-field', inst, n, val, lambda b: any(parm_idx(g, s) == 0 for s in [b] + list(g.sources(b))))
        # the message that is sent is the one that was filled, and it is large enough
        mv = {strip(y) for s in snd for y in sub(s.d['args'][0]) if y[0] == 'var'} | {y for s in snd for x in g.sources(s.d['args'][0]) for y in sub(x) if y[0] == 'var'}
        for k, (n, val, vals) in headers.items():
            dst = n.d['args'][0] if n.kind == 'call' else n.d['place'][0] if n.kind == 'new' else n.d['lhs']
            src = {y for x in list(g.sources(dst)) + [g.resolve(dst)] for y in sub(x) if y[0] == 'var'}
            ctx.ob('sent-message', inst, bool(src & mv), where(n), 'another message is filled than the one that is sent')
        for c in g.find(lambda n: n.kind == 'ctor' and n.d['q'] == 'fair::mq::zmq::ZMsg::ZMsg'):
            if not c.d['args']:
                continue
            ok = any(big_enough(g, x, multi, elem) for x in alts(g, c.d['args'][0]))
            ctx.ob('sent-size', inst, ok, where(c), 'the metadata message may be too small: %s' % show(c.d['args'][0]))


def show_pos(p):
    return '%d + %d*k' % (p[1], p[2]) if p[2] else str(p[1])


def count_ok(g, t):
    """the number of parts"""
    for x in (t, strip(t)):
        l = {k: v for k, v in lin(g, x).items() if v}
        if len(l) == 1 and list(l.values()) == [1]:
            k = next(iter(l))
            if k != 1 and k[0] == 'call' and short(k[1]) == 'size' and k[2] is not None and parm_idx(g, k[2]) == 0:
                return True
    return False


def alts(g, t):
    t = g.resolve(t)
    if t[0] == 'call' and short(t[1]) == 'max':
        a = t[3]
        if len(a) == 1:
            return [y for x in a for y in (x[1] if x[0] == 'init' else (x,))]
        return list(a)
    return [t]


def big_enough(g, t, multi, elem):
    l = lin(g, t)
    c = l.get(1, 0)
    rest = {k: v for k, v in l.items() if k != 1}
    if not multi:
        return not rest and c >= elem
    return c >= 8 and len(rest) == 1 and all(v >= elem and k[0] == 'call' and short(k[1]) == 'size' and parm_idx(g, k[2]) == 0 for k, v in rest.items())


def received(ctx):
    """received metadata ends in the message unchanged"""
    fl = fields(ctx)
    for f in ctx.fns(M + '::SetMeta') + [x for x in ctx.fns(M + '::Message') if any('MetaHeader' in p['t'] for p in x.params)]:
        g = ctx.graph(f, inline=inl)
        pi = next(i for i, p in enumerate(f.params) if 'MetaHeader' in p['t'])
        for x in fl:
            def cl(n):
                if n.kind == 'write' and mfld(g, n.d['lhs']) == ('this', x):
                    r = strip(g.resolve(n.d['rhs']))
                    return 'm' if r[0] == 'fld' and r[2] == MH + '::' + x and parm_idx(g, r[1]) == pi else 'o'
            lang(ctx, 'received-field', '%s %s' % (f.name, x), g, cl, 'o*m', legend='m the field takes the received value, o another one')
        # a fresh address is looked up
        for x in ('fLocalPtr',):
            def cl2(n):
                if n.kind == 'write' and mfld(g, n.d['lhs']) == ('this', x):
                    return 'z' if cval(g, n.d['rhs']) == 0 else 'o'
            lang(ctx, 'received-field', '%s %s' % (f.name, x), g, cl2, '[zo]*z', legend='z no address of the previous content')
    n_set = 0
    for tr, f, nm, multi in transfer_fns(ctx):
        if tr != 'shmem' or nm != 'Receive':
            continue
        inst = 'Receive%s' % (' parts' if multi else '')
        keep = lambda fn: fn.clsq not in ('fair::mq::zmq::ZMsg', M) and inl(fn)
        g = ctx.graph(f, inline=keep)
        F = Facts(g)
        rcv = g.find(lambda n: n.kind == 'call' and n.d['q'] in ('zmq_msg_recv', 'zmq_recv'))
        if not rcv:
            ctx.bad('received', inst, f.loc(), 'nothing is received')
            continue
        tm = {z for c in rcv for z in (c.d['term'], g.resolve(c.d['term']))}
        hit = lambda y: y in tm or g.resolve(y) in tm or y[0] == 'var' and any(s in tm for s in g.sources(y))
        elem = 40
        if not multi:
            buf = {strip(c.d['args'][1]) for c in rcv}
            for c in rcv:
                s = c.d['args'][2]
                ctx.ob('received', inst + ' whole', s[0] == 'sizeof' and s[1].endswith('MetaHeader') or s[0] == 'sizeof' and strip(c.d['args'][1])[0] == 'var' and 'MetaHeader' in s[1], where(c), 'not the whole metadata is received')
            sets = g.find(lambda n: n.kind == 'call' and n.d['q'] == M + '::SetMeta')
            for n in sets:
                n_set += 1
                ctx.ob('received', inst + ' metadata', strip(n.d['args'][0]) in buf, where(n), 'not the received metadata is used')
                ctx.ob('received', inst + ' message', any(parm_idx(g, s) == 0 for s in [n.d['obj']] + list(g.sources(n.d['obj']))), where(n), 'another message receives the metadata')
            lang(ctx, 'received', inst, g, lambda n: 'M' if n in sets else None, 'F*|F*SM', edge=outcome(g, F, hit), legend='S/F received or not, M the message takes the metadata')
            known_size(ctx, g, F, inst, sets, hit, elem)
            continue
        # parts
        made = g.find(lambda n: n.kind in ('call', 'new', 'ctor') and (n.kind == 'new' or short(n.d.get('q', '')) in ('make_unique', 'Message')) and any(header_arg(g, a) for a in n.d.get('args', ())))
        pushed = g.find(lambda n: n.kind == 'call' and short(n.d['q']) in ('push_back', 'emplace_back') and parm_idx(g, n.d['obj']) == 0)
        if not made or not pushed:
            ctx.bad('received', inst, f.loc(), 'no message is made for the received metadata')
            continue
        heads = {b.id: st for n in made for b, st in loop_exits(g, n)}
        if len(heads) != 1:
            ctx.bad('received', inst, where(made[0]), 'not one message for each received metadata')
            continue
        hb = g.nodes[next(iter(heads))]
        lay = Layout(ctx, g, heads, elem)
        probs = {}

        def step(n, s, fs):
            vals, ph, mk = s
            if n in rcv:
                ph = 'pre'
            elif n in made:
                a = next(a for a in n.d['args'] if header_arg(g, a))
                p = lay.lv(a, vals)
                if p != ('p', 8, elem):
                    probs[n.id] = 'the part is made from the metadata at byte %s' % (show_pos(p) if p else '?')
                mk = min(3, mk + 1)
            elif n in pushed:
                mk += 4
                if mk > 11:
                    mk = 11
            return ((lay.step(n, vals), ph, mk),)

        def edge(n, m, lab, s):
            vals, ph, mk = s
            if n.id in heads and lab in (True, False) and ph in ('pre', 'in'):
                stays = lab == heads[n.id]
                if ph == 'in' and mk != 5:
                    probs[n.id] = 'not exactly one new part per received metadata'
                v2 = lay.advance(vals, ph == 'pre')
                if stays:
                    if not loop_cond(g, F, n, lay, v2, heads[n.id]):
                        probs[n.id] = 'the loop does not run over all received metadata'
                    return v2, 'in', 0
                return frozenset((u, x) for u, x in vals if x[2] == 0), 'post', 0
            return s
        reached, _ = run(g, (frozenset(), 'none', 0), step, edge)
        for k, w in sorted(probs.items()):
            ctx.bad('received', inst, where(g.nodes[k]), w)
        if not probs:
            ctx.good('received', inst)
        for n in pushed:
            ok = any(y[0] in ('call', 'new') and any(y in (x.d.get('term'), g.resolve(x.d.get('term'))) for x in made) for a in n.d['args'] for s in [g.resolve(a), a] + list(g.sources(a)) for y in sub(s))
            ctx.ob('received', inst + ' part', ok, where(n), 'another message is appended')
        lang(ctx, 'received', inst + ' all', g, lambda n: None, 'F*|F*S(j*)k', edge=lambda n, m, lab: ('j' if lab == heads[n.id] else 'k') if n.id in heads and lab in (True, False) else outcome(g, F, hit)(n, m, lab), legend='S/F received or not, j/k next part / no more')
        known_count(ctx, g, F, inst, made, hb, lay, elem)
    ctx.ob('received', 'single', n_set > 0, ('fairmq/shmem/Socket.h', 0), 'no message takes the received metadata')


def header_arg(g, a):
    """an argument that is a header inside the metadata message"""
    if a[0] in ('deref', 'idx'):
        b = a[1]
        return b[0] in ('var', 'op', 'call') and any(y[0] == 'call' and short(y[1]) in ('Data', 'zmq_msg_data') for s in [g.resolve(b)] + list(g.sources(b)) for y in sub(s))
    if a[0] == 'var':
        ds = g.defs.get(a[1], [])
        return len(ds) == 1 and ds[0] is not None and ds[0][0] in ('deref', 'idx') and header_arg(g, ds[0])
    return False


def first_word(g, t):
    """the number of parts: the first word of the metadata message"""
    for s in [t] + list(g.sources(t)) + [g.resolve(t)]:
        for y in sub(s):
            if y[0] == 'deref' and any(z[0] == 'call' and short(z[1]) in ('Data', 'zmq_msg_data') for x in [g.resolve(y[1])] + list(g.sources(y[1])) for z in sub(x)):
                return True
    return False


def loop_cond(g, F, b, lay, vals, stay):
    """the element loop continues exactly while its index is below the number of parts"""
    c = b.d['cond']
    pol = True
    while c[0] == 'op' and c[1] == '!' and len(c) == 3:
        c, pol = c[2], not pol
    if c[0] != 'op' or len(c) != 4:
        return False
    k, p = norm(c)
    if k[0] != 'op' or len(k) != 4:
        return False
    if not p:
        pol = not pol
    op, a, d = k[1], k[2], k[3]
    if op == '==':
        op, pol = '!=', not pol
        if lay.ev(a, vals) != ('i', 0, 1):
            a, d = d, a
    ia, idd = lay.ev(a, vals), lay.ev(d, vals)
    if not (pol == stay):
        return False
    if op in ('<', '!=') and ia == ('i', 0, 1) and first_word(g, d):
        return True
    # counting down from the number of parts
    for z, v in ((a, d), (d, a)):
        if constval(z) == 0 and v[0] == 'var' and (op == '!=' or op == '<' and z is a):
            ws = [x.d['rhs'] for x in g.nodes if x.id in lay.body and x.kind == 'write' and x.d['lhs'] == v]
            ds = [x for x in g.defs.get(v[1], []) if x is not None and x not in ws]
            if len(ws) == 1 and ws[0] == ('op', '-', v, ('c', 1)) and len(ds) == 1 and first_word(g, ds[0]):
                return True
    return False


def outcome(g, F, hit):
    def edge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            if key[:2] == ('op', '<') and len(key) == 4:
                if constval(key[2]) in (0, -1) and hit(key[3]):
                    return 'S' if v else 'F'
                if hit(key[2]) and constval(key[3]) in (0, 1):
                    return 'F' if v else 'S'
            if key[:2] == ('op', '==') and any(hit(y) for y in key[2:4]) and any(constval(y) == -1 for y in key[2:4]):
                return 'F' if v else 'S'
        return None
    return edge


def num(t):
    return t[2] if t[0] == 'sizeof' else constval(t)


def known_size(ctx, g, F, inst, sets, hit, elem):
    """C20: nothing shorter than a header is taken"""
    for n in sets:
        def pred(key, v):
            if key[:2] != ('op', '<') or len(key) != 4:
                return False
            a, b = key[2], key[3]
            if hit(a) and num(b) is not None:
                return not v and num(b) >= elem
            if hit(b) and num(a) is not None:
                return v and num(a) >= elem - 1
            return False
        ctx.ob('whole-header', inst, edge_before(g, n, pred), where(n), 'metadata shorter than a header is taken as one')


def known_count(ctx, g, F, inst, made, hb, lay, elem):
    """C20: the number of parts is checked against the size of what was received"""
    def msz(t):
        return any(y[0] == 'call' and short(y[1]) in ('Size', 'zmq_msg_size') for s in [t, g.resolve(t)] + list(g.sources(t)) for y in [strip(s)])

    def fits(key, v):
        # n > (size - 8) / 40 is false; n*40 + 8 > size would overflow
        if key[:2] != ('op', '<') or len(key) != 4:
            return False
        a, b = key[2], key[3]
        if not v and first_word(g, b) and not msz(b):
            # not (limit < n)
            return limit(a)
        if v and first_word(g, a):
            return False
        return False

    def limit(t):
        t = g.resolve(t)
        if t[0] == 'var':
            ds = g.defs.get(t[1], [])
            return len(ds) == 1 and ds[0] is not None and limit(ds[0])
        if t[0] == 'op' and t[1] == '/' and len(t) == 4:
            d = num(g.resolve(t[3]))
            if d is None or d < elem:
                return False
            l = g.resolve(t[2])
            if l[0] == 'op' and l[1] == '-' and len(l) == 4:
                k = num(g.resolve(l[3]))
                return k is not None and k >= 8 and msz(l[2])
        return False

    def word(key, v):
        if key[:2] != ('op', '<') or len(key) != 4:
            return False
        a, b = key[2], key[3]
        if msz(a) and num(b) is not None:
            return not v and num(b) >= 8
        if msz(b) and num(a) is not None:
            return v and num(a) >= 7
        return False
    for n in made:
        ctx.ob('parts-fit', inst + ' parts', edge_before(g, n, fits), where(n), 'more parts are taken than were received')
        ctx.ob('parts-fit', inst + ' number', edge_before(g, n, word), where(n), 'the number of parts is taken from a message without one')
    # the number is not read from a shorter message
    rd = g.find(lambda n: n.kind in ('decl', 'write') and n.d.get('rhs') is not None and reads_first(g, n.d['rhs']))
    for n in rd:
        ctx.ob('parts-fit', inst + ' read', edge_before(g, n, word), where(n), 'the number of parts is read from a message without one')


def reads_first(g, t):
    return any(y[0] == 'deref' and any(z[0] == 'call' and short(z[1]) in ('Data', 'zmq_msg_data') for x in [g.resolve(y[1])] + list(g.sources(y[1])) for z in sub(x)) for y in sub(t)) and t[0] != 'init'


def located(ctx):
    """the data of a message is the buffer its metadata names"""
    f = ctx.fn(M + '::GetData')
    g = ctx.graph(f, inline=inl)
    F = Facts(g)

    def cl(n):
        if n.kind != 'write' or mfld(g, n.d['lhs']) != ('this', 'fLocalPtr'):
            return None
        t = n.d['rhs']
        if cval(g, t) == 0:
            return '0'
        for s in [g.resolve(t)] + list(g.sources(t)):
            s = strip(s)
            if s[0] == 'call' and s[1] == SH + '::UserPtr' and addr_of(g, s[3][0]) == ('this', 'fHandle'):
                return 'm'
        r = g.resolve(t)
        if r[0] == 'op' and r[1] == '+':
            for a, b in ((r[2], r[3]), (r[3], r[2])):
                a = strip(g.resolve(a))
                if a[0] == 'call' and short(a[1]) == 'GetData' and region_of(g, a[2]) == {'this'} and mfld(g, b) == ('this', 'fHandle'):
                    return 'r'
        return 'x'

    def edge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            k = mfld(g, key)
            if k == ('this', 'fLocalPtr'):
                return 'L' if v else 'l'
            if k == ('this', 'fManaged'):
                return 'M' if v else 'R'
            if k == ('this', 'fRegionPtr') or key[0] == 'call' and short(key[1]).startswith('GetRegion'):
                return 'P' if v else 'n'
            if key[:2] == ('op', '<') and len(key) == 4:
                if cval(g, key[2]) == 0 and mfld(g, key[3]) == ('this', 'fSize'):
                    return 'S' if v else 'e'
                if cval(g, key[3]) == 1 and mfld(g, key[2]) == ('this', 'fSize'):
                    return 'e' if v else 'S'
            if key[:2] == ('op', '==') and any(mfld(g, y) == ('this', 'fSize') for y in key[2:4]) and any(cval(g, y) == 0 for y in key[2:4]):
                return 'e' if v else 'S'
            if k == ('this', 'fSize'):
                return 'S' if v else 'e'
        return None
    lang(ctx, 'located', 'GetData', g, cl, 'L|l(MSm|Me0?|RPr|Rn0?)', edge=edge, legend='L/l address already known or not, M/R managed segment or region, S/e with or without size, P/n region there or not, m the buffer of the handle, r the offset in the region of the id, 0 none, x something else')
    for n in ret_values(g):
        ok = rv(n) is not None and any(mfld(g, s) == ('this', 'fLocalPtr') for s in [rv(n)] + list(g.sources(rv(n)))) or mfld(g, rv(n)) == ('this', 'fLocalPtr')
        ctx.ob('located', 'GetData value', ok, where(n), 'another address is returned')
    f = ctx.fn(M + '::GetSize')
    g = ctx.graph(f, inline=inl)
    for n in ret_values(g):
        ctx.ob('located', 'GetSize value', mfld(g, rv(n)) == ('this', 'fSize'), where(n), 'not the size of the message')


def opened(ctx):
    """a segment is opened before an address in it is computed"""
    for f in [x for x in ctx.P.fns.values() if x.clsq == M and x.body]:
        g = ctx.graph(f, inline=inl)
        calls = g.find(lambda n: n.kind == 'call' and n.d['q'] == MG + '::GetAddressFromHandle')
        for n in calls:
            sg = mfld(g, n.d['args'][1])
            if sg is None:
                continue
            opens = [x for x in g.nodes if x.id in g.live and x.kind == 'call' and x.d['q'] == MG + '::GetSegment' and mfld(g, x.d['args'][0]) == sg]
            def step(x, s, fs):
                if x in opens:
                    return (True,)
                if x.kind == 'write' and mfld(g, x.d['lhs']) == sg:
                    return (cseg(g, x.d['rhs']),)
                return (s,)
            reached, _ = run(g, False, step)
            hf = mfld(g, n.d['args'][0])
            none = lambda fs: any(v is True and k[:2] == ('op', '<') and mfld(g, k[2]) == hf and constval(k[3]) == 0 for k, v in fs)
            ctx.ob('segment-opened', f.name, all(s or hf and none(fs) for fs, s in reached.get(n.id, ())), where(n), 'the segment of the buffer may not be open in this process')


def cseg(g, t):
    t = strip(g.resolve(t))
    return t[0] == 'call' and t[1] == MG + '::GetSegmentId'


@prop('C19', UNITS)
def c19(ctx):
    sent(ctx)
    received_only(ctx, ('received', 'received-field'))
    located(ctx)
    opened(ctx)


class Only:
    """forwards only the obligations of some rules"""

    def __init__(self, ctx, rules):
        self.c, self.r = ctx, rules

    def __getattr__(self, a):
        return getattr(self.c, a)

    def ob(self, rule, *a, **k):
        if rule in self.r:
            self.c.ob(rule, *a, **k)

    def good(self, rule, *a, **k):
        if rule in self.r:
            self.c.good(rule, *a, **k)

    def bad(self, rule, *a, **k):
        if rule in self.r:
            self.c.bad(rule, *a, **k)


def received_only(ctx, rules):
    received(Only(ctx, rules))


@prop('C20', UNITS)
def c20(ctx):
    received_only(ctx, ('whole-header', 'parts-fit'))
    region_bounds(ctx)


def region_bounds(ctx):
    """a region message lies inside its region"""
    fs = [x for x in ctx.fns(M + '::Message') if any('UnmanagedRegion' in p['t'] for p in x.params)]
    if not fs:
        ctx.bad('region-bounds', 'constructor', ('fairmq/shmem/Message.h', 0), 'no constructor for messages in a region')
    for f in fs:
        ri = next(i for i, p in enumerate(f.params) if 'UnmanagedRegion' in p['t'])
        di = next(i for i, p in enumerate(f.params) if p['t'].startswith('void *'))
        si = next(i for i, p in enumerate(f.params) if 'unsigned long' in p['t'])
        g = ctx.graph(f, inline=inl)
        F = Facts(g)

        def atom(k):
            """d data, s size, B region start, R region size"""
            i = parm_idx(g, k)
            if i == di:
                return 'd'
            if i == si:
                return 's'
            if k[0] == 'fld' and k[2] in (M + '::fLocalPtr',):
                return 'd'
            if k[0] == 'fld' and k[2] == M + '::fSize':
                return 's'
            if k[0] == 'call' and short(k[1]) in ('GetData', 'GetSize') and k[2] is not None and parm_idx(g, k[2]) == ri:
                return 'B' if short(k[1]) == 'GetData' else 'R'
            return '?'

        def form(t):
            out = {}
            for k, v in lin(g, t).items():
                a = 1 if k == 1 else atom(k)
                out[a] = out.get(a, 0) + v
            return {k: v for k, v in out.items() if v}

        def le(key, v):
            """(form <= 0, raw sides) known from a branch"""
            if key[:2] != ('op', '<') or len(key) != 4:
                return None
            a, b = form(key[2]), form(key[3])
            if v:
                d = diff(a, b)      # a - b < 0
                return d, a, b
            return diff(b, a), b, a

        def knows(n, want):
            return edge_before(g, n, lambda key, v: (lambda x: x is not None and want(*x))(le(key, v)))
        L1 = {'B': 1, 'd': -1}
        L2 = {'d': 1, 'B': -1, 'R': -1}
        L2b = {'s': 1, 'R': -1}
        L3 = {'s': 1, 'd': 1, 'B': -1, 'R': -1}
        ends = [g.exit] if g.exit is not None else []
        for n in ends:
            ctx.ob('region-bounds', 'start', knows(n, lambda d, a, b: d == L1), f.loc(), 'data before the region is accepted')
            end = knows(n, lambda d, a, b: d == L2)
            small = knows(n, lambda d, a, b: d == L2b)
            # size <= end - data only helps if data <= end (no wrap around); data + size <= end only if size is bounded
            fit = end and knows(n, lambda d, a, b: d == L3 and not ('s' in a and 'd' in a)) or small and knows(n, lambda d, a, b: d == L3)
            ctx.ob('region-bounds', 'end', fit, f.loc(), 'data beyond the region is accepted')
            ok = edge_before(g, n, lambda key, v: key[:2] == ('op', '==') and v and any(y[0] == 'call' and short(y[1]) == 'GetType' and y[2] is not None and parm_idx(g, y[2]) == ri for y in key[2:4]) and any(y[0] == 'enum' and short(y[1]) == 'SHM' for y in key[2:4]))
            ctx.ob('region-bounds', 'type', ok, f.loc(), 'a region of another transport is accepted')
        ws = g.find(lambda n: n.kind == 'write' and mfld(g, n.d['lhs']) == ('this', 'fHandle') and cval(g, n.d['rhs']) != -1)
        for n in ws:
            ctx.ob('region-bounds', 'handle', form(n.d['rhs']) == {'d': 1, 'B': -1}, where(n), 'the handle is not the offset of the data in the region')
        lang(ctx, 'region-bounds', 'handle set', g, lambda n: 'h' if n in ws else None, 'h', legend='h the handle of the data')
        for n in g.nodes:
            if n.id in g.live and n.kind == 'write':
                h = mfld(g, n.d['lhs'])
                if h in (('this', 'fLocalPtr'), ('this', 'fSize')):
                    ctx.ob('region-bounds', h[1], parm_idx(g, n.d['rhs']) == (di if h[1] == 'fLocalPtr' else si), where(n), 'not the given one')
                if h == ('this', 'fManaged') :
                    ctx.ob('region-bounds', 'kind', cval(g, n.d['rhs']) == 0, where(n), 'taken for a message of the managed segment')
                if h == ('this', 'fRegionId'):
                    t = strip(g.resolve(n.d['rhs']))
                    ctx.ob('region-bounds', 'region id', t[0] == 'fld' and short(t[2]) == 'fRegionId' and ri in parms_in(g, t), where(n), 'not the id of the region')
                if h == ('this', 'fHint'):
                    i = parm_idx(g, n.d['rhs'])
                    ctx.ob('region-bounds', 'hint', i is not None and i > si and f.params[i]['t'].startswith('void *'), where(n), 'not the given hint')
        for n in g.find(lambda n: n.kind == 'throw'):
            ctx.ob('region-bounds', 'reported', 'TransportError' in str(n.d.get('t') or n.d.get('term')), where(n), 'not reported as a transport error')


# ------------------------------------------------------------------ C39
HDR = SH + '::Hdr'


def nz(l):
    return {k: v for k, v in l.items() if v}


def pad_of(g, t):
    """t = m - (x % m), or (m - x % m) % m: (linear form of x, m, largest value is m: 0 / m - 1: -1)"""
    t = g.resolve(t)
    if t[0] == 'var':
        ds = [d for d in g.defs.get(t[1], []) if d is not None]
        return pad_of(g, ds[0]) if len(ds) == 1 else None
    if t[0] != 'op' or len(t) != 4:
        return None
    if t[1] == '%':
        p = pad_of(g, t[2])
        return (p[0], p[1], -1) if p and same(g, p[1], t[3]) else None
    if t[1] == '-':
        r = g.resolve(t[3])
        if r[0] == 'var':
            ds = [d for d in g.defs.get(r[1], []) if d is not None]
            r = g.resolve(ds[0]) if len(ds) == 1 else r
        if r[0] == 'op' and r[1] == '%' and len(r) == 4 and same(g, t[2], r[3]):
            return nz(lin(g, r[2])), t[2], 0
    return None


def same(g, a, b):
    return nz(lin(g, a)) == nz(lin(g, b))


def one(ctx, q):
    fs = [f for f in ctx.fns(q) if f.body]
    return fs[0] if fs else None


def value(ctx, q):
    """(graph, linear form of the returned value)"""
    f = one(ctx, q)
    if f is None:
        return None, None, None
    g = ctx.graph(f, inline=lambda fn: True)
    rs = [n for n in ret_values(g) if rv(n) is not None]
    return f, g, nz(lin(g, rv(rs[0]), at=rs[0])) if len(rs) == 1 else None


def parm_var(g, i):
    for u, x in g.vinfo.items():
        if x.get('kind') == 'parm' and x.get('idx') == i:
            return u
    return None


def by_parm(g, l, names):
    """linear form with root parameters by name"""
    out = {}
    for k, v in (l or {}).items():
        if k != 1:
            i = parm_idx(g, k) if k[0] == 'var' else None
            if i is not None:
                k = names[i]
            elif k[0] == 'deref' and parm_idx(g, k[1]) is not None and k[1][0] == 'var':
                k = '*' + names[parm_idx(g, k[1])]
            elif k[0] == 'fld':
                k = k[2]
        out[k] = out.get(k, 0) + v
    return nz(out)


@prop('C39', UNITS)
def c39(ctx):
    H = ['cstring', 'fairmq/Transports.h', 'fairmq/TransportFactory.h', 'fairmq/shmem/Common.h']
    loc = ('fairmq/shmem/Common.h', 0)
    # where the header is
    f, g, l = value(ctx, SH + '::HdrPtr')
    l = by_parm(g, l, ['ptr']) if f else None
    S = (l or {}).get(1)
    ok = l is not None and l == {'ptr': 1, '*ptr': 1, 1: S}
    ctx.ob('layout', 'header position', bool(ok and S and S >= 2), f.loc() if f else loc, 'the header is not at the stored offset: %s' % l)
    # where the user buffer is
    f, g, l = value(ctx, SH + '::UserPtr')
    K1 = (l or {}).get(1)
    hf = HDR + '::userOffset'
    lu = by_parm(g, l, ['ptr']) if f else None
    ctx.ob('layout', 'buffer position', bool(lu is not None and K1 and lu == {'ptr': 1, hf: 1, 1: K1}), f.loc() if f else loc, 'the buffer is not at the stored offset: %s' % lu)
    if lu is None or not K1 or not S:
        return

    def from_header(g):
        """the offset is read from the header of this buffer"""
        for n in g.nodes:
            if n.id not in g.live or n.kind != 'ret':
                continue
            for y in sub(g.resolve(rv(n)) or ()):
                if y[0] == 'fld' and y[2] == hf:
                    b = strip(g.resolve(y[1]))
                    return by_parm(g, nz(lin(g, b)), ['ptr']) == {'ptr': 1, '*ptr': 1, 1: S}
        return False
    ctx.ob('layout', 'buffer of this header', from_header(g), f.loc(), 'the offset of another header is used')
    f, g2, l2 = value(ctx, SH + '::UserOffset')
    if f is not None:
        l2 = by_parm(g2, l2, ['ptr'])
        ctx.ob('layout', 'buffer offset', l2 == {hf: 1, 1: K1} and from_header(g2), f.loc(), 'the offset of the buffer is not that of its address: %s' % l2)
    # what is stored when a buffer is made
    f = one(ctx, SH + '::Construct')
    if f is None:
        ctx.bad('layout', 'construction', loc, 'the header is never written')
        return
    g = ctx.graph(f, inline=lambda fn: True)
    pa = [i for i, p in enumerate(f.params) if 'char' not in p['t']]
    pp = [i for i, p in enumerate(f.params) if 'char' in p['t']]
    names = {pp[0]: 'ptr', pa[0]: 'alignment'}
    news = g.find(lambda n: n.kind == 'new' and n.d['t'] == HDR and n.d['place'])
    ctx.ob('layout', 'header made once', len(news) == 1, f.loc(), 'not exactly one header is placed')
    A = None
    for n in news:
        at = by_parm(g, nz(lin(g, n.d['place'][0], at=n)), names)
        # the stored offset
        stores = []
        for x in g.nodes:
            if x.id not in g.live:
                continue
            if x.kind == 'call' and short(x.d['q']) == 'memcpy' and parm_idx(g, x.d['args'][0]) == pp[0] and strip(x.d['args'][0])[0] == 'var':
                o = x.d['args'][1]
                ds = g.defs.get(strip(o)[1], []) if strip(o)[0] == 'var' and o[0] != 'addr' else []
                if len(ds) == 1 and ds[0] is not None and ds[0][0] == 'addr':
                    o = ds[0]
                stores.append((x, strip(o), num(g.resolve(x.d['args'][2]))))
            elif x.kind == 'write' and x.d['lhs'][0] == 'deref' and parm_idx(g, x.d['lhs'][1]) == pp[0]:
                stores.append((x, x.d['rhs'], S))
        ctx.ob('layout', 'header offset stored', len(stores) == 1 and stores[0][2] == S, where(n), 'the offset of the header is not stored')
        if not stores:
            continue
        x, off, _ = stores[0]
        lang(ctx, 'layout', 'header offset stored always', g, lambda y: 's' if y is x else 'n' if y is n else None, 'sn|ns', legend='s offset stored, n header placed')
        rest = diff(by_parm(g, nz(lin(g, n.d['place'][0], at=n)), names), by_parm(g, nz(lin(g, off)), names))
        ctx.ob('layout', 'header at stored offset', rest == {'ptr': 1, 1: S}, where(n), 'the header is not where its stored offset says: off by %s' % diff(rest, {'ptr': 1, 1: S}))
        p = pad_of(g, off)
        ok = p is not None and by_parm(g, p[0], names) == {'ptr': 1, 1: S}
        A = num(g.resolve(p[1])) if p else None
        ctx.ob('layout', 'header aligned', bool(ok and A), where(x), 'the header is not placed at an aligned address: %s' % show(off))
        init = n.d['init']
        h = dict(zip(init[2], init[1])) if init and init[0] == 'init' and len(init) > 2 else {}
        uo = h.get('userOffset')
        q = pad_of(g, uo) if uo is not None else None
        ok = q is not None and by_parm(g, q[0], names) == {'ptr': 1, 1: K1} and parm_idx(g, q[1]) == pa[0]
        ctx.ob('layout', 'buffer aligned', ok, where(n), 'the buffer is not at a multiple of the requested alignment: %s' % show(uo or ('x', '?')))
        ctx.ob('layout', 'one owner', cval(g, h.get('refCount', ('x', '?'))) == 1, where(n), 'a new buffer does not have exactly one owner')
        for y in {z for t in (off, uo) if t for z in sub(t) if z[0] == 'var'}:
            t = g.vinfo.get(y[1], {}).get('t', '')
            if uo is not None and y in sub(uo) and g.vinfo.get(y[1], {}).get('kind') != 'parm':
                ctx.ob('layout', 'offset width', t.replace('const ', '') in ('unsigned int', 'unsigned long', 'int', 'long', 'uint32_t', 'size_t'), where(n), 'the offset does not hold large alignments: %s' % t)
    if A:
        asserts(ctx, 'layout', H, [
            ('header alignment', 'alignof(fair::mq::shmem::ShmHeader::Hdr) <= %d && %d %% alignof(fair::mq::shmem::ShmHeader::Hdr) == 0' % (A, A)),
            ('header before the buffer', 'sizeof(fair::mq::shmem::ShmHeader::Hdr) + %d + %d <= %d' % (A, S, K1)),
            ('stored offset width', 'sizeof(fair::mq::shmem::ShmHeader::Hdr::userOffset) >= 4'),
        ], f.loc())
    # how much is allocated
    f, g, l = value(ctx, SH + '::FullSize')
    if f is not None:
        l = by_parm(g, l, ['size', 'alignment'] if len(f.params) == 2 else ['size'])
        ctx.ob('full-size', 'FullSize', bool(l) and l.get('size') == 1 and l.get('alignment', 0) >= 1 and l.get(1, 0) >= K1 and set(l) == {'size', 'alignment', 1}, f.loc(), 'too small for header, alignment and buffer: %s' % l)
    allocate(ctx, K1)
    shrink(ctx)


def allocate(ctx, K1):
    f = one(ctx, MG + '::Allocate')
    if f is None:
        return ctx.bad('allocated', 'Allocate', ('fairmq/shmem/Manager.h', 0), 'no allocation')
    g = ctx.graph(f, inline=lambda fn: fn.clsq in (SH, MG) and fn.name != 'Construct')
    names = ['size', 'alignment']
    al = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'allocate' and 'interprocess' in n.d['q'])
    if not al:
        return ctx.bad('allocated', 'Allocate', f.loc(), 'no allocation')
    av = parm_var(g, 1)
    cons = g.find(lambda n: n.kind == 'call' and n.d['q'] == SH + '::Construct')
    sz = lambda t: t[0] == 'call' and (short(t[1]) == 'get_size' or short(t[1]) == 'visit') or t[0] == 'var'
    uses = []      # the alignment value used for size and header must be the same

    def seg(t):
        """the size of the segment"""
        for s in [g.resolve(t), t] + list(g.sources(t)):
            if s[0] == 'call' and short(s[1]) in ('get_size', 'visit'):
                return True
        return False
    for n in al:
        l = by_parm(g, nz(lin(g, n.d['args'][0], at=n)), names)
        form = l.get('size') == 1 and l.get('alignment', 0) >= 1 and l.get(1, 0) >= K1 and set(l) == {'size', 'alignment', 1}
        ctx.ob('allocated', 'size', form, where(n), 'not enough is allocated for header, alignment and buffer: %s' % l)
        for what, want in (('size', {'size': 1}), ('alignment', {'alignment': 1}), ('sum', l)):
            def pred(key, v):
                if key[:2] != ('op', '<') or len(key) != 4:
                    return False
                # not (segment < x), or x < segment
                a, b = key[2], key[3]
                if not v and seg(a):
                    return by_parm(g, nz(lin(g, b, at=n)), names) == want
                if v and seg(b):
                    return by_parm(g, nz(lin(g, a, at=n)), names) == want
                return False
            ctx.ob('allocated', 'bounded %s' % what, edge_before(g, n, pred), where(n), 'a request beyond the segment is not refused: the sum of the sizes may wrap around')
    for n in cons:
        ctx.ob('allocated', 'header', parm_idx(g, n.d['args'][1]) == 1, where(n), 'not the alignment the size was computed for')
        ok = any(y[0] == 'call' and (y in [x.d['term'] for x in al] or short(y[1]) == 'visit') for s in [n.d['args'][0]] + list(g.sources(n.d['args'][0])) for y in [strip(s)])
        ctx.ob('allocated', 'header position', ok, where(n), 'the header is not written to the new buffer')
    # minimal alignment, fixed before it is used
    F = Facts(g)

    def cl(n):
        if n.kind == 'write' and n.d['lhs'] == ('var', av, 'alignment') or n.kind == 'write' and n.d['lhs'][0] == 'var' and n.d['lhs'][1] == av:
            r = g.resolve(n.d['rhs'])
            if r[0] == 'call' and short(r[1]) == 'max' and any(parm_idx(g, y) == 1 for y in r[3]) and any((constval(y) or 0) >= 16 for y in r[3]):
                return 'm'
            if r[0] == 'op' and r[1] == '?:' and False:
                return 'm'
            if (constval(r) or 0) >= 16:
                return 's'
            return 'x'
        if n in al:
            return 'a'
        if n in cons:
            return 'h'
        if n.kind in ('decl', 'write') and n.d.get('rhs') is not None and n.d['rhs'][0] != 'call':
            l = by_parm(g, nz(lin(g, n.d['rhs'])), names) if n.d['rhs'][0] == 'op' else {}
            if 'size' in l and 'alignment' in l:
                return 'f'
        return None

    def edge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            if key[:2] == ('op', '<') and len(key) == 4:
                if parm_idx(g, key[2]) == 1 and (constval(key[3]) or 0) >= 16:
                    return 'u' if v else 'k'
        return None
    lang(ctx, 'allocated', 'alignment', g, cl, '(m|us|k)f*(a?h?)*', edge=edge, ends=('exit',), legend='m/us/k at least the fundamental alignment, f full size computed, a allocated, h header written; x another change of the alignment')
    # every buffer that is returned was allocated and has its header
    tm = [x.d['term'] for x in al]

    def step(n, s, fs):
        if n.kind in ('write', 'decl') and n.d.get('rhs') is not None and not n.d.get('ret') and any(strip(y) in tm for y in [n.d['rhs']] + list(g.sources(n.d['rhs']))):
            return ('p',)
        return ('d' if n in cons else s,)
    reached, _ = run(g, 'n', step, lambda n, m, lab, s: None if s == 'p' and (lab == 'exc' or isinstance(lab, tuple)) else s)
    sts = {s for _, s in reached.get(g.exit.id, ())} if g.exit is not None else set()
    ctx.ob('allocated', 'always', 'd' in sts and 'p' not in sts, f.loc(), 'a buffer is returned without its header')
    for n in ret_values(g):
        ok = any(strip(s)[0] == 'call' and short(strip(s)[1]) in ('visit', 'allocate') for s in g.sources(rv(n)))
        ctx.ob('allocated', 'result', ok, where(n), 'not the new buffer is returned')


def shrink(ctx):
    """shrinking keeps room for the requested size"""
    fs = [f for f in ctx.P.fns.values() if f.clsq == 'fair::mq::shmem::SegmentBufferShrink' and f.name == 'operator()' and f.body]
    for f in fs:
        g = ctx.graph(f, inline=lambda fn: False)
        cs = g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'allocation_command')
        for n in cs:
            a = n.d['args']
            fl = lambda l: {(short(k[2]) if k != 1 and k[0] == 'fld' else k): v for k, v in l.items()}
            d = [x for x in g.defs.get(a[2][1], []) if x is not None and x[:2] != ('x', 'out')] if a[2][0] == 'var' else [a[2]]
            lim, pre = fl(nz(lin(g, a[1]))), fl(nz(lin(g, d[0]))) if len(d) == 1 else {}
            okp = pre.get('new_size') == 1 and pre.get(1, 0) >= 0 and set(pre) <= {'new_size', 1}
            okl = lim.get('new_size') == 1 and lim.get(1, 0) >= pre.get(1, 0) and set(lim) <= {'new_size', 1}
            ctx.ob('shrink', 'size', okp and okl, where(n), 'the buffer may become smaller than requested')
            ctx.ob('shrink', 'buffer', short(fldq(g.resolve(a[3])) or '') == 'local_ptr', where(n), 'another buffer is shrunk')
            ctx.ob('shrink', 'in place', any(y[0] in ('enum', 'glob') and 'shrink_in_place' in str(y[1]) for y in sub(a[0])) or 'shrink_in_place' in str(a[0]), where(n), 'the buffer is not shrunk in place')
        ctx.ob('shrink', 'requested', len(cs) == 1, f.loc(), 'not shrunk')
    f = one(ctx, MG + '::ShrinkInPlace')
    if f is not None:
        g = ctx.graph(f, inline=lambda fn: False)
        cs = [(n.d['args'], n) for n in g.nodes if n.id in g.live and n.kind in ('ctor',) and 'SegmentBufferShrink' in n.d['q']]
        for a, n in cs:
            if len(a) == 2:
                ctx.ob('shrink', 'forwarded', parm_idx(g, a[0]) == 0 and parm_idx(g, a[1]) == 1, where(n), 'not the given size and buffer')
        for n in g.find(lambda n: n.kind == 'call' and short(n.d['q']) == 'at'):
            ctx.ob('shrink', 'segment', parm_idx(g, n.d['args'][0]) == 2, where(n), 'not in the segment of the buffer')
