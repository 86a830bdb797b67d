"""C18 shared memory buffers are released once by their last holder, C19 messages travel unchanged, C39 buffer size and alignment."""
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .rules_transport import sockq, transfer_fns, TRS, UNIT
from .witness import asserts

M = 'fair::mq::shmem::Message'
MG = 'fair::mq::shmem::Manager'
UR = 'fair::mq::shmem::UnmanagedRegion'
SH = 'fair::mq::shmem::ShmHeader'
KEEP = {MG + '::' + x for x in ('GetAddressFromHandle', 'GetHandleFromAddress', 'Deallocate', 'GetSegment', 'GetRegionFromCache', 'GetRegion', 'Allocate', 'ShrinkInPlace', 'GetSegmentId')}
COUNT = {'DecrementRefCount': -1, 'IncrementRefCount': 1, 'Decrement': -1, 'Increment': 1}


def inl(fn):
    return fn.q not in KEEP and fn.clsq not in (SH, UR, 'fair::mq::shmem::RefCount')


def mfld(g, t):
    """('this'|'other', field) of a message"""
    t = strip(g.resolve(t))
    if t[0] == 'fld' and t[2].startswith(M + '::'):
        b = strip(t[1])
        if b[0] == 'this':
            return 'this', short(t[2])
        if parm_idx(g, b) == 0:
            return 'other', short(t[2])
    return None


def addr_of(g, t):
    """(holder, fHandle|fShared) whose address in its own segment t is"""
    for s in [g.resolve(t)] + list(g.sources(t)):
        s = strip(s)
        if s[0] == 'call' and s[1] == MG + '::GetAddressFromHandle':
            h, sg = mfld(g, s[3][0]), mfld(g, s[3][1])
            if h and sg == (h[0], 'fSegmentId') and h[1] in ('fHandle', 'fShared'):
                return h
    return None


def region_of(g, t):
    """whose region the pointer denotes: the region of that message's id"""
    t = strip(g.resolve(t))
    who = set()
    for s in [t] + list(g.sources(t)):
        s = strip(s)
        if s[0] == 'call' and short(s[1]) in ('GetRegionFromCache', 'GetRegion'):
            r = mfld(g, s[3][0])
            who.add(r[0] if r and r[1] == 'fRegionId' else '?')
    if mfld(g, t) == ('this', 'fRegionPtr'):
        for n in g.nodes:
            if n.id in g.live and n.kind == 'write' and mfld(g, n.d['lhs']) == ('this', 'fRegionPtr') and strip(n.d['rhs'])[0] != 'null':
                for s in [strip(g.resolve(n.d['rhs']))] + [strip(x) for x in g.sources(n.d['rhs'])]:
                    if s[0] == 'call' and short(s[1]) in ('GetRegionFromCache', 'GetRegion'):
                        r = mfld(g, s[3][0])
                        who.add(r[0] if r and r[1] == 'fRegionId' else '?')
    return who


def rc_of(g, t):
    """whose reference counter in the region's own segment"""
    for s in [g.resolve(t)] + list(g.sources(t)):
        s = strip(s)
        if s[0] == 'call' and short(s[1]) == 'GetRefCountAddressFromHandle':
            h = mfld(g, s[3][0])
            if h and h[1] == 'fShared' and s[2] is not None and h[0] in region_of(g, s[2]):
                return h
    return None


class Rel:
    """release events of a message function"""

    def __init__(self, ctx, f):
        self.ctx, self.g = ctx, ctx.graph(f, inline=inl)
        self.F = Facts(self.g)
        self.dec = {}
        self.ev = {}
        self._k = None
        for n in self.g.nodes:
            if n.id in self.g.live:
                e = self.event(n)
                if e:
                    self.ev[n.id] = e

    def event(self, n):
        g = self.g
        if n.kind != 'call':
            return None
        q, s, a = n.d['q'], short(n.d['q']), n.d['args']
        if q == SH + '::DecrementRefCount':
            h = addr_of(g, a[0])
            e = {('this', 'fHandle'): 'D', ('this', 'fShared'): 'G'}.get(h, '!')
            self.dec[n.id] = n
            return e
        if q == SH + '::IncrementRefCount':
            h = addr_of(g, a[0])
            if h:
                return {('other', 'fHandle'): 'I', ('other', 'fShared'): 'J'}.get(h, '!')
            return 'N' if any(strip(s)[0] == 'call' and strip(s)[1] == MG + '::Allocate' for s in [g.resolve(a[0])] + list(g.sources(a[0]))) else '!'
        if s in ('Decrement', 'Increment') and q.startswith('fair::mq::shmem::') and n.d.get('obj') is not None and not q.startswith(SH):
            h = rc_of(g, n.d['obj'])
            if s == 'Decrement':
                self.dec[n.id] = n
                return 'E' if h == ('this', 'fShared') else '!'
            return 'K' if h == ('other', 'fShared') else '!'
        if q == UR + '::MakeRefCount':
            return 'P' if 'other' in region_of(g, n.d['obj']) and cval(g, a[0]) == 2 else '!'
        if q == UR + '::RemoveRefCount':
            return 'Z' if rc_of(g, a[0]) == ('this', 'fShared') else '!'
        if q == MG + '::Deallocate':
            return {('this', 'fHandle'): 'X', ('this', 'fShared'): 'Y'}.get(mfld(g, a[0]), '!') if mfld(g, a[1]) == ('this', 'fSegmentId') else '!'
        if q == UR + '::ReleaseBlock':
            return 'B' if 'this' in region_of(g, n.d['obj']) and self.block(a[0]) else '!'
        return None

    def block(self, t):
        """the released block consists of this message's handle, size and hint"""
        g = self.g
        want = ['fHandle', 'fSize', 'fHint']
        t = strip(g.resolve(t))
        if t[0] in ('ctor', 'init'):
            a = t[2] if t[0] == 'ctor' else t[1]
            if len(a) == 1:
                return self.block(a[0])
            return [mfld(g, y) for y in a] == [('this', w) for w in want]
        if t[0] == 'var':
            ws = {}
            for n in g.nodes:
                if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and strip(n.d['lhs'][1]) == t:
                    ws.setdefault(short(n.d['lhs'][2]), []).append(mfld(g, n.d['rhs']))
            if ws:
                return all(len(ws.get(w, [])) == 1 and ws[w][0] == ('this', w) for w in want)
            ds = g.defs.get(t[1], [])
            return len(ds) == 1 and self.block(ds[0])
        return False

    def edge(self, n, m, lab):
        g = self.g
        if n.kind != 'branch' or lab not in (True, False):
            return None
        key, pol = self.F.key(n.d['cond'])
        v = lab == pol
        if key[:2] == ('op', '<'):
            x, y = key[2], key[3]
            h = mfld(g, x)
            if constval(y) == 0 and h:
                return {('this', 'fHandle'): '0', ('this', 'fShared'): 's'}.get(h) if v else None
            h = mfld(g, y)
            if constval(x) == -1 and h:
                return {('this', 'fHandle'): '0', ('this', 'fShared'): 's'}.get(h) if not v else None
            if self.is_dec(x) and constval(y) == 2:
                return 'l' if v else 'L'
            if self.is_dec(y) and constval(x) == 1:
                return 'L' if v else 'l'
        if key[:2] == ('op', '=='):
            for x, y in ((key[2], key[3]), (key[3], key[2])):
                if self.is_dec(x) and constval(y) == 1:
                    return 'l' if v else 'L'
                if mfld(g, x) == ('this', 'fHandle') and constval(y) == -1:
                    return '0' if v else None
                if mfld(g, x) == ('this', 'fShared') and constval(y) == -1:
                    return 's' if v else None
                if self.is_region(x) and strip(y)[0] == 'null':
                    return 'w' if v else None
        if mfld(g, key) == ('this', 'fQueued'):
            return '0' if v else None
        if self.is_region(key):
            return 'w' if not v else None
        return None

    def is_region(self, t):
        return bool(region_of(self.g, t)) and (mfld(self.g, t) == ('this', 'fRegionPtr') or strip(self.g.resolve(t))[0] in ('call', 'var'))

    def is_dec(self, t):
        g = self.g
        tm = {z for n in self.dec.values() for z in (n.d['term'], g.resolve(n.d['term']))}
        return t in tm or g.resolve(t) in tm or t[0] == 'var' and any(s in tm for s in g.sources(t))

    def cl(self, n):
        return 't' if n.kind == 'catch' else self.ev.get(n.id)

    def atom(self, n, lab):
        """what a branch establishes: {(who, field): bool}"""
        g = self.g
        if n.kind != 'branch' or lab not in (True, False):
            return None
        key, pol = self.F.key(n.d['cond'])
        v = lab == pol
        seg = lambda t: short(fldq(g.resolve(t)) or '') == 'fRcSegmentSize'
        if key[:2] == ('op', '<'):
            x, y = key[2], key[3]
            if constval(y) == 0 and mfld(g, x):
                return mfld(g, x), v
            if constval(x) == -1 and mfld(g, y):
                return mfld(g, y), not v
            if constval(x) == 0 and seg(y):
                return 'rc', v
        if key[:2] == ('op', '=='):
            for x, y in ((key[2], key[3]), (key[3], key[2])):
                if mfld(g, x) and constval(y) == -1:
                    return mfld(g, x), v
                if seg(x) and constval(y) == 0:
                    return 'rc', not v
        if seg(key):
            return 'rc', v
        if mfld(g, key):
            return mfld(g, key), v
        return None

    def known(self, n):
        """what was established on every path to n"""
        if self._k is None:
            def edge(x, m, lab, st):
                a = self.atom(x, lab)
                if a is None:
                    return st
                return frozenset({b for b in st if b[0] != a[0]} | {a})

            def step(x, st, fs):
                if x.kind == 'write':
                    h = mfld(self.g, x.d['lhs'])
                    if h:
                        st = frozenset(b for b in st if b[0] != h)
                return (st,)
            self._k, _ = run(self.g, frozenset(), step, edge)
        sts = [s for _, s in self._k.get(n.id, ())]
        return frozenset.intersection(*sts) if sts else frozenset()

    def knows(self, n, name, val, who='this'):
        return ('rc' if name == 'rc' else (who, name), val) in self.known(n)


B = '(w*B|w+)'
CORE = '([0s]*0[0s]*|D(lX|L)|w*E(l(Z%s|%sZ)|L)|w*G(l(Y%s|%sY)|L)|s+%s)' % (B, B, B, B, B)
CUT = '[0s]*w*(D(lX?|L)?|E(lZ?w*B?Z?|L)?|G(lY?w*B?Y?|L)?|B?)t+'
LEG = '0 no content or handed over, D/E/G count of the buffer / of the shared region block (own segment / managed segment) decremented, l/L it was / was not the last holder, X buffer freed, Y/Z counter freed, s region block without counter, B block given back to its region, w region gone, t failure caught, ! wrong object'


def msg_fns(ctx, name):
    return [f for f in ctx.fns(M + '::' + name) if f.body]


@prop('C18', UNIT)
def c18(ctx):
    if ctx.cls(M) is None:
        ctx.broken('shmem::Message not found')
    released(ctx)
    copied(ctx)
    forgotten(ctx)
    handed_over(ctx)
    given_data(ctx)
    used_size(ctx)
    counters(ctx)
    asserts(ctx, 'not-copied', ['cstring', 'fairmq/Transports.h', 'fairmq/TransportFactory.h', 'fairmq/shmem/Socket.h'], [
        ('%s cannot be copied' % c, '!std::is_copy_constructible_v<%s> && !std::is_copy_assignable_v<%s>' % (c, c)) for c in (M, UR)], 'fairmq/shmem/Message.h')


def released(ctx):
    fs = msg_fns(ctx, '~Message') + msg_fns(ctx, 'Rebuild') + msg_fns(ctx, 'SetMeta')
    if len(fs) < 7:
        ctx.broken('destructor, Rebuild or SetMeta of the shmem message not found')
    for f in fs:
        r = Rel(ctx, f)
        inst = '%s(%s)' % (f.name, ', '.join(p['t'].split('::')[-1] for p in f.params))
        lang(ctx, 'released-once', inst, r.g, r.cl, '%s|%s' % (CORE, CUT), edge=r.edge, legend=LEG)
        where_counts(ctx, r, inst)
    # nothing leaves the destructor but what it reports
    for f in msg_fns(ctx, '~Message'):
        r = Rel(ctx, f)
        for n in r.g.nodes:
            if n.id in r.g.live and n.kind == 'throw' and n.fn.q.startswith('fair::mq::shmem::'):
                esc = escapes(r.g, n)
                ctx.ob('destroyable', 'failure at %s' % where(n), not esc, where(n), 'the exception leaves the destructor: the process is terminated')


def escapes(g, n):
    """an explicitly thrown exception may reach the exceptional end of the function"""
    seen, st = set(), [m for m, l in n.succ]
    while st:
        m = st.pop()
        if m.id in seen or m.kind == 'catch':
            continue
        seen.add(m.id)
        if m is g.exc_exit:
            return True
        st.extend(x for x, l in m.succ)
    return False


def where_counts(ctx, r, inst):
    g = r.g
    for n in g.nodes:
        e = r.ev.get(n.id)
        if n.id not in g.live or not e:
            continue
        if e in 'DEGXYZB':
            ctx.ob('released-when', '%s: %s' % (inst, short(n.d['q'])), r.knows(n, 'fQueued', False) and r.knows(n, 'fHandle', False), where(n), 'a handed over or empty message releases something')
            ctx.ob('released-when', '%s: %s of the right kind' % (inst, short(n.d['q'])), r.knows(n, 'fManaged', e in 'DX'), where(n), 'managed buffer and region block are mixed up')
        if e in 'EG':
            ctx.ob('released-when', '%s: counter location' % inst, r.knows(n, 'rc', e == 'E') and r.knows(n, 'fShared', False), where(n), 'the counter is looked for in the wrong segment')


def copied(ctx):
    fs = msg_fns(ctx, 'Copy')
    if not fs:
        ctx.broken('shmem::Message::Copy not found')
    for f in fs:
        r = Rel(ctx, f)
        g = r.g
        take = {'fSize', 'fHint', 'fHandle', 'fShared', 'fRegionId', 'fSegmentId', 'fManaged'}

        def edge(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = r.F.key(n.d['cond'])
                v = lab == pol
                if key[:2] == ('op', '<') and constval(key[3]) == 0 and mfld(g, key[2]):
                    return {('other', 'fHandle'): 'e' if v else 'v', ('other', 'fShared'): 'u' if v else 'U'}.get(mfld(g, key[2])) or r.edge(n, m, lab)
            return r.edge(n, m, lab)

        def cl(n):
            e = r.cl(n)
            if e:
                return e
            if n.kind == 'write':
                h = mfld(g, n.d['lhs'])
                if h == ('other', 'fShared'):
                    return 'S' if mk_shared(g, r, n) else '!'
                if h == ('other', 'fSegmentId'):
                    return 'T' if mfld(g, n.d['rhs']) == ('this', 'fSegmentId') else '!'
                if h and h[0] == 'other':
                    return '!'
                if h == ('this', 'fHandle') and mfld(g, n.d['rhs']) == ('other', 'fHandle'):
                    return 'C'
            return None
        rel = '(0+|%s)' % '|'.join([CORE, CUT])
        # the order of the tests does not matter; releasing comes first, then exactly one count, then taking over
        lang(ctx, 'copy-counts', 'Copy', g, cl, 'e%s|v?%sw*((I|U*[KJ]|u+PS|u+(STN|TSN|NST|SNT|NTS|TNS))C|u+P?t#)' % (rel, rel), edge=edge,
             legend='e/v given message empty or not, [%s], I/J/K count of the buffer / region block (managed segment / own segment) incremented, u/U block without or with counter, P own-segment counter made with two holders, N new counter incremented, S its place stored in the given message (T with its segment), C taken over' % LEG)
        for fl in sorted(take):
            took(ctx, g, r, fl)
        for n in g.nodes:
            e = r.ev.get(n.id)
            if n.id in g.live and e in ('I', 'J', 'K', 'P', 'N'):
                ctx.ob('copy-when', 'Copy: %s at line %d' % (short(n.d['q']), n.line), r.knows(n, 'fManaged', e == 'I', 'other') and (e == 'I' or r.knows(n, 'rc', e in 'KP')) and (e in 'IN' or r.knows(n, 'fShared', e == 'P', 'other')), where(n), 'the counter is changed at the wrong place')


def took(ctx, g, r, fl):
    F = r.F

    def edge(n, m, lab):
        if n.kind == 'branch' and lab in (True, False):
            key, pol = F.key(n.d['cond'])
            if key[:2] == ('op', '<') and constval(key[3]) == 0 and mfld(g, key[2]) == ('other', 'fHandle'):
                return 'e' if lab == pol else 'v'
        return None
    lang(ctx, 'copy-takes', fl, g, lambda n: None if n.kind != 'write' or mfld(g, n.d['lhs']) != ('this', fl) else 'w' if mfld(g, n.d['rhs']) == ('other', fl) else 'o', '[eo]*e[eo]*|[vo]*v[ov]*w', edge=edge, legend='e/v given message empty or not, w taken from it, o set to something else')


def mk_shared(g, r, n):
    """the place of the new counter: handle of the counter just made"""
    s = strip(g.resolve(n.d['rhs']))
    if s[0] != 'call':
        return False
    if short(s[1]) == 'HandleFromAddress' and s[2] is not None and 'other' in region_of(g, s[2]):
        return any(x[0] == 'call' and x[1] == UR + '::MakeRefCount' for x in list(g.sources(s[3][0])) + list(sub(s)))
    if s[1] == MG + '::GetHandleFromAddress' and mfld(g, s[3][1]) in (('this', 'fSegmentId'), ('other', 'fSegmentId')):
        return any(strip(x)[0] == 'call' and strip(x)[1] == MG + '::Allocate' for x in [g.resolve(s[3][0])] + list(g.sources(s[3][0])))
    return False


RESET = {'fHandle': -1, 'fShared': -1, 'fManaged': 1, 'fQueued': 0, 'fSize': 0, 'fLocalPtr': None, 'fRegionPtr': None, 'fSegmentId': 'cur'}


def is_reset(g, fl, t):
    want = RESET[fl]
    t2 = strip(g.resolve(t))
    if want is None:
        return t2[0] == 'null' or constval(t2) == 0
    if want == 'cur':
        return t2[0] == 'call' and t2[1] == MG + '::GetSegmentId'
    return cval(g, t) == want


def forgotten(ctx):
    for f in msg_fns(ctx, 'Rebuild') + msg_fns(ctx, 'SetMeta'):
        r = Rel(ctx, f)
        g = r.g
        sized = any('unsigned long' in p['t'] for p in f.params)
        inst = '%s(%s)' % (f.name, ', '.join(p['t'].split('::')[-1] for p in f.params))
        for fl in RESET:
            def cl(n):
                if n.kind != 'write' or mfld(g, n.d['lhs']) != ('this', fl):
                    return None
                if f.name == 'SetMeta':
                    t = strip(g.resolve(n.d['rhs']))
                    if t[0] == 'fld' and parm_idx(g, t[1]) == 0 and t[2].startswith('fair::mq::shmem::MetaHeader'):
                        return 'm'
                if is_reset(g, fl, n.d['rhs']):
                    return 'r'
                return 'c' if sized and fl in ('fHandle', 'fSize', 'fLocalPtr') and n.fn.name != f.name or sized and fl in ('fHandle', 'fSize', 'fLocalPtr') else '!'
            want = '[rm]*m' if f.name == 'SetMeta' and fl not in ('fQueued', 'fLocalPtr', 'fRegionPtr') else 'r[rc]*' if sized else '!?r+'
            if fl == 'fSegmentId' and f.name != 'SetMeta':
                want = 'r+'
            if fl == 'fRegionPtr':
                cl2 = cl

                def cl(n):
                    if n.kind == 'write' and mfld(g, n.d['lhs']) == ('this', fl) and not is_reset(g, fl, n.d['rhs']):
                        return 'u'
                    return cl2(n)
                want = '[ur]*r'
            lang(ctx, 'forgotten', '%s %s' % (inst, fl), g, cl, want, legend='r reset to the empty state, c the new buffer, m taken from the metadata, u used for releasing')
        if sized:
            chunk(ctx, g, r, inst, f)


def chunk(ctx, g, r, inst, f):
    """the new buffer: handle, size and data pointer belong to one allocation in the current segment"""
    for n in g.nodes:
        if n.id not in g.live or n.kind != 'write':
            continue
        h = mfld(g, n.d['lhs'])
        if h == ('this', 'fHandle') and not is_reset(g, 'fHandle', n.d['rhs']):
            s = strip(g.resolve(n.d['rhs']))
            ok = s[0] == 'call' and s[1] == MG + '::GetHandleFromAddress' and mfld(g, s[3][1]) == ('this', 'fSegmentId') and is_alloc(g, s[3][0])
            ctx.ob('new-buffer', inst + ' handle', ok, where(n), 'the handle is not that of the new buffer')
        if h == ('this', 'fLocalPtr') and not is_reset(g, 'fLocalPtr', n.d['rhs']):
            s = strip(g.resolve(n.d['rhs']))
            ctx.ob('new-buffer', inst + ' data', s[0] == 'call' and s[1] == SH + '::UserPtr' and is_alloc(g, s[3][0]), where(n), 'the data is not in the new buffer')
        if h == ('this', 'fSize') and not is_reset(g, 'fSize', n.d['rhs']):
            i = parm_idx(g, n.d['rhs'])
            ctx.ob('new-buffer', inst + ' size', i is not None and 'unsigned long' in f.params[i]['t'], where(n), 'the size is not the requested one')
    for n in g.find(lambda n: n.kind == 'call' and n.d['q'] == MG + '::Allocate'):
        i = parm_idx(g, n.d['args'][0])
        ctx.ob('new-buffer', inst + ' allocation', i is not None and 'unsigned long' in f.params[i]['t'], where(n), 'not the requested size')
        al = [j for j, p in enumerate(f.params) if 'Alignment' in p['t']]
        if al:
            ctx.ob('new-buffer', inst + ' alignment', al[0] in parms_in(g, n.d['args'][1]), where(n), 'the requested alignment is lost')


def is_alloc(g, t):
    return any(strip(s)[0] == 'call' and strip(s)[1] == MG + '::Allocate' for s in [g.resolve(t)] + list(g.sources(t)))


def handed_over(ctx):
    """fQueued: set exactly when the metadata was sent, and only there"""
    for tr, f, nm, multi in transfer_fns(ctx):
        if tr != 'shmem' or nm != 'Send':
            continue
        g = ctx.graph(f)
        F = Facts(g)
        snd = g.find(lambda n: n.kind == 'call' and n.d['q'] in ('zmq_msg_send', 'zmq_send'))
        tm = {z for c in snd for z in (c.d['term'], g.resolve(c.d['term']))}
        hit = lambda y: y in tm or g.resolve(y) in tm or y[0] == 'var' and any(s in tm for s in g.sources(y))
        qs = g.find(lambda n: n.kind == 'write' and fldq(n.d['lhs']) == M + '::fQueued')
        if not qs:
            ctx.bad('handed-over', 'Send%s' % (' parts' if multi else ''), f.loc(), 'a sent message still owns its buffer: it is released twice')
            continue
        for n in qs:
            ctx.ob('handed-over', 'value', cval(g, n.d['rhs']) == 1, where(n), 'sent message not marked')
            of = parms_in(g, n.d['lhs'][1]) if not multi else None
            ctx.ob('handed-over', 'of the sent message', multi or 0 in of or any(parm_idx(g, s) == 0 for s in g.sources(n.d['lhs'][1])), where(n), 'another message is marked')

        def edge(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                v = lab == pol
                if key[:2] == ('op', '<') and len(key) == 4:
                    if constval(key[2]) in (0, -1) and hit(key[3]):
                        return 'S' if v else 'F'
                    if hit(key[2]) and constval(key[3]) in (0, 1):
                        return 'F' if v else 'S'
                if key[:2] == ('op', '==') and any(hit(y) for y in key[2:4]) and any(constval(y) == -1 for y in key[2:4]):
                    return 'F' if v else 'S'
            return None
        if multi:
            ex = [x for n in qs for x in loop_exits(g, n)]
            br = {b.id: st for b, st in ex}
            whole = len(br) == 1 and all(whole_range(g, b, lambda t: parm_idx(g, t) == 0) for b, st in ex)
            ctx.ob('handed-over', 'every part', whole, where(qs[0]), 'not every part is marked')
            e2 = lambda n, m, lab: ('j' if lab == br[n.id] else 'k') if n.id in br and lab in (True, False) else edge(n, m, lab)
            lang(ctx, 'handed-over', 'Send parts', g, lambda n: 'Q' if n in qs else None, 'F*|F*S(jQ)*k', edge=e2, legend='S/F sent or not, j/k next part / all parts, Q part marked as handed over')
        else:
            lang(ctx, 'handed-over', 'Send', g, lambda n: 'Q' if n in qs else None, 'F*|F*SQ', edge=edge, legend='S/F sent or not, Q marked as handed over')
    # nobody else marks messages
    for f in ctx.P.fns.values():
        if not f.body or ctx.P.serves(f, lambda h: h.name == 'Send' and h.clsq == sockq('shmem')):
            continue
        if f.clsq not in (M, sockq('shmem'), MG, 'fair::mq::shmem::TransportFactory', 'fair::mq::shmem::Poller'):
            continue
        g = ctx.graph(f, inline=lambda x: False)
        for n in g.nodes:
            if n.id in g.live and n.kind == 'write' and fldq(n.d['lhs']) == M + '::fQueued':
                ctx.ob('handed-over', '%s::%s' % (short(f.clsq), f.name), cval(g, n.d['rhs']) == 0, where(n), 'a message that was not sent is marked: its buffer is never released')


def given_data(ctx):
    """messages from given data copy it and release it once"""
    for f in msg_fns(ctx, 'Message') + msg_fns(ctx, 'Rebuild'):
        di = [i for i, p in enumerate(f.params) if p['t'].strip() == 'void *']
        fi = [i for i, p in enumerate(f.params) if 'FreeFn' in p['t'] or '(*)' in p['t'] or '(void *, void *)' in p['t']]
        if not fi or not di:
            continue
        g = ctx.graph(f, inline=inl)
        F = Facts(g)
        data, hint, ffn = di[0], di[1], fi[0]
        size = next(i for i, p in enumerate(f.params) if 'unsigned long' in p['t'])

        def cl(n):
            if n.kind != 'call':
                return None
            a = n.d['args']
            if short(n.d['q']) == 'memcpy':
                return 'k' if parm_idx(g, a[1]) == data and parm_idx(g, a[2]) == size and fldq(g.resolve(a[0])) == M + '::fLocalPtr' or parm_idx(g, a[1]) == data and parm_idx(g, a[2]) == size and any(s[0] == 'call' and s[1] == SH + '::UserPtr' for s in [strip(g.resolve(a[0]))] + list(g.sources(a[0]))) else '!'
            if n.d['q'] in ('free', 'std::free'):
                return 'R' if parm_idx(g, a[0]) == data else '!'
            cal = n.d.get('callee') or n.d.get('obj')
            if indirect(g, n, ffn):
                return 'C' if [parm_idx(g, y) for y in a] == [data, hint] else '!'
            return None

        def edge(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                v = lab == pol
                if parm_idx(g, key) == ffn:
                    return 'f' if v else 'o'
                if key[:2] == ('op', '==') and any(parm_idx(g, y) == ffn for y in key[2:4]):
                    return 'o' if v else 'f'
                if key[:2] == ('op', '==') and any(parm_idx(g, y) == size for y in key[2:4]) and any(constval(y) == 0 for y in key[2:4]):
                    return 'z' if v else None
                if parm_idx(g, key) == size or fldq(g.resolve(key)) == M + '::fLocalPtr' or any(fldq(x) == M + '::fLocalPtr' for x in g.sources(key)):
                    return None if v else 'z'
            return None
        inst = '%s(data)' % ('created' if f.kind == 'ctor' else 'rebuilt')
        lang(ctx, 'given-data', inst, g, cl, '(z*k|z+)(fC|oR)', edge=edge, legend='k data copied into the buffer, z no data, f/o release function given or not, C it is called with data and hint, R data freed')


def indirect(g, n, idx):
    d = n.d
    for k in ('fp', 'callee', 'obj', 'term'):
        t = d.get(k)
        if isinstance(t, tuple) and t:
            if k == 'term':
                if t[0] == 'call' and isinstance(t[1], tuple) and parm_idx(g, t[1]) == idx:
                    return True
                continue
            if parm_idx(g, t) == idx:
                return True
    return False


def used_size(ctx):
    for f in msg_fns(ctx, 'SetUsedSize'):
        r = Rel(ctx, f)
        g = r.g
        F = r.F
        own = lambda t: mfld(g, t) == ('this', 'fSize')
        P0 = lambda t: parm_idx(g, t) == 0

        def cmpl(n, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            if key[0] == 'op' and key[1] in ('<', '=='):
                x, y = key[2], key[3]
                if key[1] == '==' and (own(x) and P0(y) or own(y) and P0(x)):
                    return 'a' if v else None
                if key[1] == '==' and (P0(x) and constval(y) == 0 or P0(y) and constval(x) == 0):
                    return 'z' if v else None
                if own(x) and P0(y):
                    return 'g' if v else None
            if P0(key):
                return None if v else 'z'
            return None

        def cl(n):
            e = r.cl(n)
            if e:
                return e
            if n.kind == 'write' and own(n.d['lhs']):
                return 'N' if P0(n.d['rhs']) else 'r' if cval(g, n.d['rhs']) == 0 else '!'
            if n.kind == 'call' and n.d['q'] == MG + '::ShrinkInPlace':
                return 'H' if shrink_ok(g, n, P0) else '!'
            if n.kind == 'call' and short(n.d['q']) == 'memcpy':
                a = n.d['args']
                return 'k' if P0(a[2]) and user_ptr(g, a[0], True) and user_ptr(g, a[1], False) else '!'
            if n.kind == 'ret' and n.fn is g.root:
                return {1: 'T', 0: 'F'}.get(cval(g, rv(n)), '?')
            return None

        def edge(n, m, lab):
            c = cmpl(n, lab)
            if c:
                return c
            e = r.edge(n, m, lab)
            return e if e in ('l', 'L', 's', '0', 'w') else None
        rel = CORE
        lang(ctx, 'used-size', 'SetUsedSize', g, cl, 'aT|z%srT|[ws0t]*gF|[ws0]*(HN|N)T|[ws0]*H?t+(kX)?NT|[ws0]*H?t+k?X?N?t*F' % rel, edge=edge,
             legend='a/z/g same size / zero / larger, [%s], r forgotten, H shrunk in place, k kept part copied to a new buffer, X old buffer freed, N new size stored, T/F reported' % LEG)
        # the buffer is only touched while nobody else uses it
        for n in g.find(lambda n: n.kind == 'call' and n.d['q'] == MG + '::ShrinkInPlace' or r.ev.get(n.id) == 'X' and n.kind == 'call' and n.fn.name == 'SetUsedSize'):
            rc = lambda t: any(s[0] == 'call' and short(s[1]) in ('GetRefCount', 'RefCount') for s in [g.resolve(t)] + list(g.sources(t)) + list(sub(t)))
            one = edge_before(g, n, lambda k, v: k[:2] == ('op', '<') and constval(k[2]) == 1 and rc(k[3]) and v is False or k[:2] == ('op', '<') and rc(k[2]) and constval(k[3]) == 2 and v is True or k[:2] == ('op', '==') and any(rc(y) for y in k[2:4]) and any(constval(y) == 1 for y in k[2:4]) and v is True)
            ctx.ob('sole-user', 'SetUsedSize %s' % short(n.d['q']), one and r.knows(n, 'fManaged', True), where(n), 'the buffer may be used by another message or belong to a region')


def shrink_ok(g, n, P0):
    a = n.d['args']
    s = strip(g.resolve(a[0]))
    if s[:2] != ('op', '+'):
        return False
    off = [y for y in s[2:4] if any(x[0] == 'call' and x[1] == SH + '::UserOffset' for x in list(sub(y)) + list(g.sources(y)))]
    return len(off) == 1 and any(P0(y) for y in s[2:4]) and addr_of(g, a[1]) == ('this', 'fHandle') and mfld(g, a[2]) == ('this', 'fSegmentId')


def user_ptr(g, t, new):
    for s in [strip(g.resolve(t))] + [strip(x) for x in g.sources(t)]:
        if s[0] == 'call' and s[1] == SH + '::UserPtr':
            return is_alloc(g, s[3][0]) if new else addr_of(g, s[3][0]) == ('this', 'fHandle')
    return False


def counters(ctx):
    """the reference counters themselves: atomic, one step at a time, returning the count before"""
    for q, fl in ((SH, None), ('fair::mq::shmem::RefCount', 'fair::mq::shmem::RefCount::count')):
        names = ('IncrementRefCount', 'DecrementRefCount', 'RefCount') if q == SH else ('Increment', 'Decrement', 'Get')
        for nm, op in zip(names, ('fetch_add', 'fetch_sub', 'load')):
            fs = [f for f in ctx.fns(q + '::' + nm) if f.body and f.kind not in ('ctor', 'dtor')]
            if not fs:
                ctx.broken('%s::%s not found' % (q, nm))
            for f in fs:
                g = ctx.graph(f)
                rets = ret_values(g)
                ops = g.find(lambda n: n.kind == 'call' and 'atomic' in n.d['q'] and short(n.d['q']) not in ('atomic', '~atomic'))
                inst = '%s::%s' % (short(q), nm)
                if op == 'load':
                    ws = g.find(lambda n: n.kind == 'call' and short(n.d['q']) in ('fetch_add', 'fetch_sub', 'store', 'exchange') or n.kind == 'write' and n.d['lhs'][0] == 'fld')
                    ctx.ob('counter', inst, not ws, f.loc(), 'reading the counter changes it')
                    for n in rets:
                        ctx.ob('counter', inst + ' value', short(fldq(g.resolve(rv(n))) or '') in ('refCount', 'count') or any(short(fldq(s) or '') in ('refCount', 'count') for s in sub(g.resolve(rv(n)))), where(n), 'does not return the counter')
                    continue
                good = {n.id for n in ops if short(n.d['q']) == op and n.d['args'] and cval(g, n.d['args'][0]) == 1}
                lang(ctx, 'counter', inst, g, lambda n: ('c' if n.id in good else '!') if n in ops else None, 'c', legend='c %s by one' % op)
                for n in rets:
                    t = strip(g.resolve(rv(n)))
                    ctx.ob('counter', inst + ' value', any(t in (x.d['term'], g.resolve(x.d['term'])) for x in ops), where(n), 'does not return the count found: %s' % show(t))
