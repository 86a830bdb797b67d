"""C22 region registry, C23 region acknowledgements, C24 region events."""
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .flow import constval
from .rules_transport import UNIT
from .rules_shmmsg import MG, UR, SH
from .rules_shmmeta import lin, nz, diff

SHM = 'fair::mq::shmem'
RI = 'fair::mq::RegionInfo'
SRI = SHM + '::RegionInfo'
RC = 'fair::mq::RegionConfig'
ZC = 'fair::mq::zmq::Context'
UNITS = ['analyzer/inst_transport.cpp']
LOOKUPS = ('find', 'at', 'operator[]', 'emplace', 'try_emplace', 'insert', 'insert_or_assign')
CFG = {'creationFlags': 'fCreationFlags', 'path': 'fPath', 'rcSegmentSize': 'fRCSegmentSize'}


def keep_fns(*names):
    ns = set(names)
    return lambda fn: fn.q not in ns


def srcs(g, t, depth=0):
    """the terms a term may come from; variables replaced by what was assigned to them"""
    t = strip(g.resolve(t))
    if t[0] == 'var' and depth < 6:
        ds = [strip(d) for d in g.defs.get(t[1], []) if d is not None and d[:2] != ('x', 'out')]
        if any(d[0] == 'call' and short(d[1]) in ('begin', 'cbegin') for d in ds):
            # iterator of a loop
            ds = [d for d in ds if not (d[:2] == ('op', '+') and t in d[2:4])]
        if ds:
            out = []
            for d in ds:
                out += [d] if d == t else srcs(g, d, depth + 1)
            return out
    return [t]


def peel(t):
    """through dereferences, copies, conversions and smart pointers"""
    while True:
        t = strip(t)
        if t[0] in ('deref', 'addr'):
            t = t[1]
        elif t[0] == 'ctor' and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'init' and len(t[1]) == 1:
            t = t[1][0]
        elif t[0] == 'call' and t[2] is not None and short(t[1]) in ('get', 'operator->', 'operator*', 'c_str', 'value', 'data', 'str'):
            t = t[2]
        elif t[0] == 'call' and t[2] is None and t[1] in ('std::move', 'std::forward', 'std::as_const') and t[3]:
            t = t[3][0]
        else:
            return t


def entries(g, t):
    """set of (container field or local, key, part): what part ('key' or 'val') of a container's element the term may denote; None for anything else"""
    out = set()
    for s in srcs(g, t):
        out |= entry1(g, peel(s))
    return out


def cont(g, t):
    t = peel(g.resolve(t))
    if t[0] == 'fld':
        return t[2]
    if t[0] in ('var', 'ctor'):
        return t
    return None


def entry1(g, s, depth=0):
    part = 'val'
    s = peel(s)
    while True:
        if s[0] == 'fld' and short(s[2]) in ('first', 'second'):
            # it.first / it.second / emplace(..).first.second
            inner = peel(s[1])
            if short(s[2]) == 'first' and inner[0] == 'call' and short(inner[1]) in ('emplace', 'try_emplace', 'insert'):
                s = inner
                continue
            part = 'key' if short(s[2]) == 'first' else 'val'
            s = inner
            continue
        if s[0] == 'idx' and s[2][0] == 's' and s[2][1] in ('#0', '#1'):
            part = 'key' if s[2][1] == '#0' else 'val'
            s = peel(s[1])
            continue
        break
    if s[0] == 'call' and s[2] is not None and short(s[1]) in LOOKUPS:
        c = cont(g, s[2])
        return {(c, g.resolve(s[3][0]) if s[3] else None, part)}
    if s[0] == 'op' and s[1] == 'elem':
        return {(cont(g, s[2]), None, part)}
    if s[0] == 'call' and s[2] is not None and short(s[1]) in ('begin', 'cbegin') and not s[3]:
        return {(cont(g, s[2]), None, part)}
    if s[0] == 'op' and s[1] == '[]' or s[0] == 'idx':
        return {(cont(g, s[1] if s[0] == 'idx' else s[2]), g.resolve(s[2] if s[0] == 'idx' else s[3]), part)}
    if s[0] == 'var' and depth < 4:
        out = set()
        for d in srcs(g, s):
            out |= entry1(g, d, depth + 1) if d != s else {None}
        return {(e[0], e[1], part if e[2] == 'val' else e[2]) if e else None for e in out}
    return {None}


def in_cont(es, name):
    """all are values of elements of container field `name`"""
    return bool(es) and all(e is not None and isinstance(e[0], str) and short(e[0]) == name and e[2] == 'val' for e in es)


def info_field(g, t, name):
    """field `name` of an element of the registry of regions"""
    t = peel(g.resolve(t))
    fs = [t] if t[0] == 'fld' else [peel(s) for s in srcs(g, t)]
    return bool(fs) and all(f[0] == 'fld' and short(f[2]) == name and in_cont(entries(g, f[1]), 'fShmRegions') for f in fs)


def reg_keys(g, t):
    """keys with which the registry was searched for the element whose field the term is"""
    t = peel(g.resolve(t))
    return {e[1] for e in entries(g, t[1]) if e} if t[0] == 'fld' else set()


def idkey(g, t):
    """normal form of an id: parameter, field of a record, key of the current element"""
    t = peel(g.resolve(t))
    i = parm_idx(g, t)
    if i is not None:
        return ('parm', i)
    if t[0] == 'fld':
        b = peel(g.resolve(t[1]))
        if short(t[2]) in ('first',):
            e = entry1(g, t)
            if e and None not in e:
                c, k, p = next(iter(e))
                return idkey(g, k) if k is not None else ('key', c)
        if short(t[2]) == 'id':
            vals = {idkey(g, n.d['rhs']) for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][2] == t[2] and peel(g.resolve(n.d['lhs'][1])) == b} if b[0] == 'var' else set()
            if len(vals) == 1:
                return next(iter(vals))
        return ('fld', b, short(t[2]))
    e = entry1(g, t)
    if e and None not in e:
        c, k, p = next(iter(e))
        if p == 'key':
            return idkey(g, k) if k is not None else ('key', c)
    return t


def made_regions(g):
    """(node, args) of the construction of unmanaged regions: make_unique, new or a constructor in a container operation"""
    out = []
    for n in g.nodes:
        if n.id not in g.live:
            continue
        if n.kind == 'call' and short(n.d['q']) in ('make_unique', 'make_shared') and UR in str(n.d.get('t') or '') + str(n.d.get('ta') or ''):
            out.append((n, n.d['args']))
        elif n.kind == 'new' and UR in str(n.d.get('t')):
            out.append((n, n.d.get('args') or []))
    return out


def lock_held(ctx, rule, inst, g, n, q):
    ml = must_locks(g)
    ctx.ob(rule, inst, q in ml.get(n.id, ()), where(n), 'without %s held' % short_f(q))


# ------------------------------------------------------------------ C22
@prop('C22', UNITS)
def c22(ctx):
    register(ctx)
    ctor(ctx)
    create(ctx)
    lookup(ctx)
    viewer(ctx)
    remove(ctx)
    cache(ctx)
    shared(ctx)
    zmq_ids(ctx)


def counter_writes(g, field='fCount', q=SHM + '::EventCounter'):
    return [n for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and short(n.d['lhs'][2]) == field and n.d['lhs'][2].startswith(q + '::')]


def plus(g, n, k=1):
    """the write adds k"""
    return nz(diff(lin(g, n.d['rhs']), lin(g, n.d['lhs']))) == {1: k}


def register(ctx):
    r = 'registered'
    for f in ctx.fns(UR + '::Register'):
        g = ctx.graph(f)
        F = Facts(g)
        ci = next((i for i, p in enumerate(f.params) if 'RegionConfig' in p['t']), None)
        inc = {n.id for n in counter_writes(g)}

        def regs(t):
            return any(s[0] == 'call' and 'RegionInfo' in str(s) and short(s[1]) in ('find_or_construct', 'operator()', 'find', 'construct') for s in sub(g.resolve(t)))

        def cfgf(t, name):
            t = peel(g.resolve(t))
            return t[0] == 'fld' and short(t[2]) == name and ci is not None and ci in parms_in(g, t)

        puts = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and short(n.d['q']) in ('emplace', 'try_emplace', 'insert', 'insert_or_assign') and 'RegionInfo' in n.d['q']]

        def ev(n):
            if n in puts:
                return 'E'
            if n.id in inc:
                return 'I' if plus(g, n) else '!'
            return None

        def look(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                v = lab == pol
                if key[:2] == ('op', '==') and any(y[0] == 'call' and short(y[1]) in ('find',) for y in key[2:4]) and any(y[0] == 'call' and short(y[1]) in ('end', 'cend') for y in key[2:4]):
                    x = next(y for y in key[2:4] if short(y[1]) == 'find')
                    return ('a' if v else 'p') if cfgf(x[3][0], 'id') else '?'
            return None
        lang(ctx, r, f.q, g, ev, 'a(EI|IE)x|p', edge=look, endsym={'exit': 'x'}, legend='a/p the id is free/taken, E entered, I number of events plus one, x returns')
        for n in puts:
            a = n.d['args']
            ctx.ob(r, 'id', bool(a) and cfgf(a[0], 'id'), where(n), 'not entered under its id')
            vals = {}
            for x in a:
                x = peel(g.resolve(x))
                if x[0] == 'var':
                    vals.update({short(w.d['lhs'][2]): w.d['rhs'] for w in g.nodes if w.id in g.live and w.kind == 'write' and w.d['lhs'][0] == 'fld' and w.d['lhs'][1] == x})
            for w, c in (('fPath', 'path'), ('fCreationFlags', 'creationFlags'), ('fUserFlags', 'userFlags'), ('fSize', 'size'), ('fRCSegmentSize', 'rcSegmentSize')):
                ctx.ob(r, c, w in vals and any(y[0] == 'fld' and short(y[2]) == c and ci in parms_in(g, y) for y in sub(g.resolve(vals[w]))), where(n), 'not the %s of the region' % c)
            ctx.ob(r, 'alive', 'fDestroyed' in vals and cval(g, vals['fDestroyed']) == 0, where(n), 'a new region is not marked as existing')
        for n in g.find(lambda n: n.kind == 'throw'):
            ctx.ob(r, 'reported', 'TransportError' in str(n.d.get('t') or n.d.get('term')), where(n), 'a taken id is not reported as a transport error')


def counter_obj(g, t, what):
    """the term is the counter kept in the management segment"""
    return any(what in y[1] for s in srcs(g, t) for y in sub(s) if y[0] == 'call')


def ctor(ctx):
    """a region is entered exactly when this object created it as its controller"""
    r = 'creates'
    fs = [f for f in ctx.fns(UR + '::UnmanagedRegion') if any(p['t'].replace('const ', '') == 'bool' for p in f.params)]
    if not fs:
        ctx.bad(r, 'constructor', ('fairmq/shmem/UnmanagedRegion.h', 0), 'no constructor with a controlling flag')
    for f in fs:
        g = ctx.graph(f, inline=keep_fns(UR + '::Register'))
        F = Facts(g)
        si = next(i for i, p in enumerate(f.params) if 'unsigned long' in p['t'])
        bi = next(i for i, p in enumerate(f.params) if p['t'].replace('const ', '') == 'bool')
        regs = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == UR + '::Register']

        def newobj(n):
            return n.kind == 'write' and any(y[0] == 'glob' and short(y[1]) == 'create_only' for y in sub(g.resolve(n.d['rhs']))) and n.d['lhs'][0] == 'fld' and short(n.d['lhs'][2]) == 'fShmemObject'

        def sized(n):
            return n.kind == 'call' and short(n.d['q']) == 'truncate' and parm_idx(g, n.d['args'][0]) == si

        def ev(n):
            if newobj(n):
                return 'N'
            if sized(n):
                return 'T'
            if n in regs:
                return 'R'
            return None

        flags = {n.d['lhs'] for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'var' and any(y[0] == 'call' and short(y[1]) == 'access' for y in sub(g.resolve(n.d['rhs'])))}

        def exists(t):
            """access(..) == 0"""
            return t[:2] == ('op', '==') and any(y[0] == 'call' and short(y[1]) == 'access' for y in t[2:4]) and any(constval(y) == 0 for y in t[2:4])
        bad = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'] in flags and constval(g.resolve(n.d['rhs'])) is None and not (lambda k, pol: exists(k) and not pol)(*F.key(g.resolve(n.d['rhs'])))]
        ctx.ob(r, 'file flag', not bad, where(bad[0]) if bad else f.loc(), 'a file that exists counts as created here')

        def look(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                v = lab == pol
                if exists(key):
                    return 'n' if v else 'y'
                if key in flags or n.d['cond'] in flags:
                    return 'y' if v else 'n'
            return None
        for c in (True, False):
            lang(ctx, r, '%s' % ('controller' if c else 'viewer'), g, ev, 'y+Ry*|n*|NTy*Ry*' if c else '[yn]*', edge=look, init_facts=pfact(g, bi, int(c)),
                 legend='N a new object, T its size set, y/n created here or not, R entered in the registry')
        # a size that does not fit is refused
        def known(k, v):
            return k[:2] == ('op', '==') and (any(parm_idx(g, y) == si for y in k[2:4]) and (any(constval(y) == 0 for y in k[2:4]) and v or any(y[0] == 'call' and short(y[1]) == 'get_size' for y in k[2:4]) and v))
        opened = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and short(n.d['lhs'][2]) == 'fRegion' and any(y[0] == 'fld' and short(y[2]) == 'fShmemObject' for y in sub(g.resolve(n.d['rhs'])))]
        ctx.ob(r, 'mapped', bool(opened), f.loc(), 'the object is not mapped')

        def fit(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                return 'k' if known(key, lab == pol) else None
            return None
        lang(ctx, r, 'size', g, lambda n: 'M' if n in opened else None, '[k]*(Mk+)?', edge=fit, legend='M mapped, k size is 0 or equals the size of the mapping')
        # what the object was told
        for n in g.nodes:
            if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][1][0] == 'this':
                w = short(n.d['lhs'][2])
                if w == 'fControlling':
                    ctx.ob(r, w, parm_idx(g, n.d['rhs']) == bi, where(n), 'not as requested')
                elif w in ('fRemoveOnDestruction', 'fLinger', 'fRcSegmentSize'):
                    t = peel(g.resolve(n.d['rhs']))
                    ctx.ob(r, w, t[0] == 'fld' and short(t[2]) == {'fRemoveOnDestruction': 'removeOnDestruction', 'fLinger': 'linger', 'fRcSegmentSize': 'rcSegmentSize'}[w], where(n), 'not as configured')
    for f in ctx.fns(UR + '::BecomeController'):
        g = ctx.graph(f)

        def ev(n):
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][1][0] == 'this':
                w, t = short(n.d['lhs'][2]), peel(g.resolve(n.d['rhs']))
                if w == 'fControlling':
                    return 'C' if cval(g, n.d['rhs']) == 1 else '!'
                for a, b in (('fLinger', 'linger'), ('fRemoveOnDestruction', 'removeOnDestruction')):
                    if w == a:
                        return a[1] if t[0] == 'fld' and short(t[2]) == b and 0 in parms_in(g, t) else '!'
            return None
        lang(ctx, r, f.q, g, ev, 'CLR|CRL|LCR|LRC|RCL|RLC', legend='C controller, L its linger time, R whether it removes the region')


RCNT = SHM + '::RegionCounter'
FR, FSR = MG + '::fRegions', MG + '::fShmRegions'
OUTSIDE = lambda fn: not fn.q.startswith(UR + '::')


def region_id(g, t):
    """the term is the id in the region configuration (parameter) of the function, or a copy of it"""
    t = peel(g.resolve(t))
    if t[0] == 'fld' and t[2] == RC + '::id' and parms_in(g, t):
        return True
    ds = srcs(g, t)
    return t[0] == 'var' and bool(ds) and all(peel(d)[0] == 'fld' and peel(d)[2] == RC + '::id' for d in ds)


def has_entry(g, key, v, q, idp):
    """'a'/'p' if the fact says the table q has no / has an entry for the id, '?' if for another key"""
    k = lookup_kind(g, key, v, q)
    if k is None:
        return None
    for y in sub(key):
        if y[0] == 'call' and short(y[1]) in ('find', 'count', 'contains') and y[2] is not None and rooted(g, y[2], q):
            if not idp(y[3][0]):
                return '?'
    return k


def nonnull(g, t):
    out = []
    for s in srcs(g, t):
        if peel(s)[0] == 'null':
            continue
        out += list(entry1(g, peel(s)))
    return out or [None]


def create(ctx):
    r = 'created'
    for f in ctx.fns(MG + '::CreateRegion'):
        g = ctx.graph(f, inline=OUTSIDE)
        F = Facts(g)
        ml = must_locks(g)
        si = next(i for i, p in enumerate(f.params) if 'unsigned long' in p['t'])
        cbs = [i for i, p in enumerate(f.params) if 'function' in p['t']]
        cfgi = next(i for i, p in enumerate(f.params) if 'RegionConfig' in p['t'])
        idp = lambda t: region_id(g, t)
        made = {n.id: a for n, a in made_regions(g)}

        def shmcnt(t):
            t = peel(g.resolve(t))
            return t[0] == 'fld' and t[2].startswith(RCNT + '::') or any(y[0] == 'fld' and y[2].startswith(RCNT + '::') for s in srcs(g, t) for y in sub(s))

        def ev(n):
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][2].startswith(RCNT + '::'):
                return 'i' if plus(g, n) else '!'
            if n.kind == 'call' and 'RegionCounter' in str(n.d.get('t')) and any(y[0] == 'call' and short(y[1]) == 'construct' for y in sub(n.d['obj'] or ('x', ''))):
                return 'k'
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][2] == RC + '::id':
                raw = peel(n.d['rhs'])
                return 'w' if peel(g.resolve(raw))[0] == 'fld' and shmcnt(raw) and MG + '::fShmMtx' in ml.get(n.id, ()) else '!'
            if n.kind == 'call' and n.d['q'] == UR + '::BecomeController':
                return 'B' if all(e and e[0] == FR and idp(e[1]) for e in nonnull(g, n.d['obj'])) and parm_idx(g, n.d['args'][0]) == cfgi else '!'
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][2] == RC + '::rcSegmentSize':
                return 'r' if info_field(g, n.d['rhs'], 'fRCSegmentSize') and all(idp(k) for k in reg_keys(g, n.d['rhs'])) else '!'
            if n.id in made:
                a = made[n.id]
                flag = [x for x in a if cval(g, x) == 1]
                ok = bool(a) and fldq(g.resolve(a[0])) == MG + '::fShmId' and any(parm_idx(g, x) == cfgi for x in a) and any(parm_idx(g, x) == si for x in a) and (len(a) < 4 or bool(flag))
                return 'E' if ok else '!'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], FR) and short(n.d['q']) in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'erase', 'clear', 'extract', 'swap'):
                a = n.d['args']
                return 'P' if short(n.d['q']) in ('emplace', 'try_emplace') and idp(a[0]) and MG + '::fLocalRegionsMtx' in ml.get(n.id, ()) else '!'
            if n.kind == 'call' and n.d['q'].startswith(UR + '::') and short(n.d['q']) in ('SetCallbacks', 'InitializeQueues', 'StartAckSender', 'StartAckReceiver'):
                if not all(e and e[0] == FR and idp(e[1]) for e in nonnull(g, n.d['obj'])):
                    return '!'
                s = short(n.d['q'])
                if s == 'SetCallbacks':
                    return 'S' if [parm_idx(g, x) for x in n.d['args']] == cbs else '!'
                return {'InitializeQueues': 'Q', 'StartAckSender': 'A', 'StartAckReceiver': 'R'}[s]
            if n.kind == 'write' and n.d['lhs'] in (('glob', MG + '::fRegionsGen'),):
                return 'v'
            return None

        def edge(n, m, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            if key[0] == 'call' and short(key[1]) in ('has_value', 'operator bool') and key[2] is not None:
                o = peel(g.resolve(key[2]))
                if o[0] == 'fld' and o[2] == RC + '::id':
                    return 'g' if v else 'n'
                if parm_idx(g, o) in cbs:
                    return 'c' if v else 'z'
            h = has_entry(g, key, v, FR, idp)
            if h:
                return {'absent': 'a', 'present': 'p'}.get(h, '!')
            h = has_entry(g, key, v, FSR, idp)
            if h:
                return {'absent': 'y', 'present': 'x'}.get(h, '!')
            if key[0] == 'fld' and key[2] == UR + '::fControlling':
                return 'T' if v else 'F'
            return None
        lang(ctx, r, f.q, g, ev, '(g|n(i|k)w)(pFB|a(xr|y)EP)(zz|z?c(SQ|QS)(AR|RA))ve | (g|n(i|k)w)pT', edge=edge, endsym={'exit': 'e'},
             legend='g/n id given or not, i/k session counter advanced/started, w id from the counter, a/p region with this id unknown/known here, T/F controller already or view, B becomes controller, x/y entry in the registry or not, r its reference count segment size, E constructed, P entered under its id, z/c no callback/callback, S callbacks set, Q queue, A/R ack sender/receiver started, v caches invalidated, e returns')
        # result
        ok = n_ok = 0
        for n in g.nodes:
            if n.id not in g.live:
                continue
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and short(n.d['lhs'][2]) in ('first', 'second') and 'UnmanagedRegion *' in n.d['lhs'][2]:
                n_ok += 1
                good = all(e and e[0] == FR and idp(e[1]) for e in nonnull(g, n.d['rhs'])) if short(n.d['lhs'][2]) == 'first' else idp(n.d['rhs'])
                ctx.ob(r, 'result ' + short(n.d['lhs'][2]), good, where(n), 'not the region and its id')
            elif n.kind == 'ret' and n.d.get('term') is not None:
                for s in srcs(g, n.d['term']):
                    s = strip(s)
                    a = s[2] if s[0] == 'ctor' else s[1] if s[0] == 'init' else s[3] if s[0] == 'call' and short(s[1]) == 'make_pair' else ()
                    if len(a) == 2:
                        n_ok += 2
                        ctx.ob(r, 'result', all(e and e[0] == FR and idp(e[1]) for e in nonnull(g, a[0])) and idp(a[1]), where(n), 'not the region and its id')
        ctx.ob(r, 'result', n_ok >= 2, f.loc(), 'the region and its id are not returned')
        for n in g.find(lambda n: n.kind == 'throw' and n.d.get('term') is not None and n.d['term'][0] == 'ctor'):
            ctx.ob(r, 'reported', 'TransportError' in str(n.d.get('t') or n.d.get('term')), where(n), 'not a transport error')
    for f in ctx.fns(UR + '::SetCallbacks'):
        g = ctx.graph(f)
        ws = {short(n.d['lhs'][2]): n for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][1][0] == 'this'}
        for i, p in enumerate(f.params):
            w = 'fBulkCallback' if 'vector' in p['t'] else 'fCallback'
            ctx.ob(r, w, w in ws and i in parms_in(g, ws[w].d['rhs']), f.loc(), 'callback not stored')


def of_region(g, t, idp):
    return all(e and e[0] == FR and e[2] == 'val' and idp(e[1]) for e in nonnull(g, t))


def lookup(ctx):
    """GetRegion(id) yields the region with this id, opening it if the session knows it, or nothing"""
    r = 'found'
    for f in ctx.fns(MG + '::GetRegion'):
        g = ctx.graph(f, inline=OUTSIDE)
        F = Facts(g)
        ml = must_locks(g)
        idp = lambda t: parm_idx(g, t) == 0
        made = {n.id: a for n, a in made_regions(g)}
        for n in g.nodes:
            if n.id not in g.live:
                continue
            if n.kind == 'ret':
                t = n.d.get('term')
                ss = [peel(s) for s in srcs(g, t)]
                if all(s[0] == 'null' for s in ss):
                    continue
                ctx.ob(r, 'result', of_region(g, t, idp), where(n), 'not the region with the given id')
        in_catch = [n for n in g.nodes if n.kind == 'catch' and n.id in g.live]

        def ev(n):
            if n in in_catch:
                return 'o'
            if n.id in made:
                a = made[n.id]
                return 'E' if bool(a) and fldq(g.resolve(a[0])) == MG + '::fShmId' and len(a) == 4 and cval(g, a[2]) == 0 else '!'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], FR) and short(n.d['q']) in ('emplace', 'try_emplace', 'insert', 'erase', 'clear', 'extract', 'swap', 'insert_or_assign'):
                return 'P' if short(n.d['q']) in ('emplace', 'try_emplace') and idp(n.d['args'][0]) and MG + '::fLocalRegionsMtx' in ml.get(n.id, ()) else '!'
            if n.kind == 'call' and n.d['q'].startswith(UR + '::') and short(n.d['q']) in ('InitializeQueues', 'StartAckSender', 'StartAckReceiver', 'BecomeController', 'SetCallbacks'):
                return {'InitializeQueues': 'Q', 'StartAckSender': 'A'}.get(short(n.d['q']), '!') if of_region(g, n.d['obj'], idp) else '!'
            if n.kind == 'ret':
                return '0' if all(peel(s)[0] == 'null' for s in srcs(g, n.d['term'])) else 'r'
            return None

        def edge(n, m, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            h = has_entry(g, key, lab == pol, FR, idp)
            return {'absent': 'a', 'present': 'p'}.get(h, '!') if h else None
        rets = [n for n in g.nodes if n.id in g.live and n.kind == 'ret']
        one = len(rets) == 1
        w = '(p|aEPQA)r|(aE?P?Q?A?)?o%s' % ('r' if one else '0')
        lang(ctx, r, f.q, g, ev, 'a*(%s)' % w, edge=edge,
             legend='a/p region not known/known in this process, E opened as a view, P entered under its id, Q/A its queue and acknowledgement sender, o an error was caught, r/0 returns region/nothing')


def viewer(ctx):
    """a region opened by another process gets path, creation flags and reference count segment of the registry"""
    r = 'viewer'
    n_made = 0
    for name in ('GetRegion', 'GetRegionInfo'):
        for f in ctx.fns(MG + '::' + name):
            g = ctx.graph(f, inline=OUTSIDE)
            n_made += len(made_regions(g))
            view_cfg(ctx, r, f, g)
    ctx.ob(r, 'opened', n_made >= 2, ('fairmq/shmem/Manager.h', 0), 'regions of other processes are not opened')


def view_cfg(ctx, r, f, g):
    cfgs = {('var', u, i.get('name', '')) for u, i in g.vinfo.items() if i.get('t', '').replace('const ', '').rstrip(' &') in ('RegionConfig', RC) and i.get('kind') != 'parm' and not i.get('t', '').endswith('&')}
    decl = {}

    def okw(n):
        w, t = short(n.d['lhs'][2]), n.d['rhs']
        if w == 'id':
            return 'id'
        if w in CFG:
            return w if info_field(g, t, CFG[w]) else None
        return w

    def touched(n):
        return [x for x in (n.d.get('args') or []) for x in [peel(g.resolve(x)), peel(x)] if x in cfgs]

    def step(n, s, fs):
        s = dict(s)
        if n.kind == 'decl':
            v = ('var', n.d['var'][1] if isinstance(n.d['var'], tuple) else n.d['var'], '')
            for c in cfgs:
                if c[1] == v[1]:
                    s[c] = frozenset()
        if n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][1] in cfgs:
            w = okw(n)
            c = n.d['lhs'][1]
            if w:
                s[c] = s.get(c, frozenset()) | {w}
            else:
                s[c] = s.get(c, frozenset()) | {'!' + short(n.d['lhs'][2])}
        yield tuple(sorted(s.items(), key=str))
    reached, tr = run(g, (), step)
    used = [n for n in g.nodes if n.id in g.live and n.kind in ('call', 'new') and touched(n) and not (n.kind == 'call' and n.d.get('obj') is not None and peel(n.d['obj']) in cfgs)]
    for n in used:
        for c in set(touched(n)):
            bad = None
            for fs, s in reached.get(n.id, ()):
                have = dict(s).get(c, frozenset())
                miss = [w for w in list(CFG) + ['id'] if w not in have] + [w for w in have if w[0] == '!']
                if miss:
                    bad = miss
            ctx.ob(r, '%s config' % short(f.q), not bad, where(n), 'used without the %s of the registry' % ', '.join(x.lstrip('!') for x in bad or []))
    # entered under the id it was opened with
    for n, a in made_regions(g):
        c = peel(g.resolve(a[-1])) if a else None
        raw = peel(a[-1]) if a else None
        v = raw if raw in cfgs else c
        ids = set()
        if v in cfgs:
            ids = {idkey(g, w.d['rhs']) for w in g.nodes if w.id in g.live and w.kind == 'write' and w.d['lhs'][0] == 'fld' and w.d['lhs'][1] == v and short(w.d['lhs'][2]) == 'id'}
            ctrl = {k for w in g.nodes if w.id in g.live and w.kind == 'write' and w.d['lhs'][0] == 'fld' and w.d['lhs'][1] == v and short(w.d['lhs'][2]) in CFG for k in [idkey(g, x) for x in reg_keys(g, w.d['rhs']) if x is not None]}
            ctx.ob(r, short(f.q) + ' same entry', not ctrl or ctrl == ids, where(n), 'configured from the entry of another region')
        else:
            es = entries(g, a[-1]) if a else {None}
            ids = {idkey(g, e[1]) if e and e[1] is not None else None for e in es}
        for p in g.nodes:
            if p.id in g.live and p.kind == 'call' and p.d.get('obj') is not None and base_is(g, p.d['obj'], FR) and short(p.d['q']) in ('emplace', 'try_emplace'):
                ctx.ob(r, short(f.q) + ' id', idkey(g, p.d['args'][0]) in ids and len(ids) == 1, where(p), 'entered under another id than it was opened with')


def remove(ctx):
    """removing a region takes it from this process and, if it is removed on destruction, marks it as destroyed for all"""
    r = 'removed'
    for f in ctx.fns(MG + '::RemoveRegion'):
        g = ctx.graph(f, inline=lambda fn: not fn.q.startswith(UR + '::') or short(fn.q) == 'RemoveOnDestruction')
        F = Facts(g)
        ml = must_locks(g)
        idp = lambda t: parm_idx(g, t) == 0

        def ev(n):
            if n.kind == 'catch':
                return 'o'
            if n.kind == 'call' and n.d['q'] == UR + '::StopAcks':
                return 'A' if of_region(g, n.d['obj'], idp) else '!'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], FR) and short(n.d['q']) in ('extract', 'erase', 'emplace', 'clear', 'swap'):
                if short(n.d['q']) not in ('extract', 'erase') or MG + '::fLocalRegionsMtx' not in ml.get(n.id, ()):
                    return '!'
                a = n.d['args'][0]
                return 'X' if idp(a) or all(e and e[0] == FR and e[1] is not None and idp(e[1]) for e in entries(g, a)) else '!'
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][2] == SRI + '::fDestroyed':
                return 'D' if cval(g, n.d['rhs']) == 1 and MG + '::fShmMtx' in ml.get(n.id, ()) and all(e and e[0] == FSR and e[1] is not None and idp(e[1]) for e in entries(g, n.d['lhs'][1])) else '!'
            if n in cnt:
                return 'I' if plus(g, n) and MG + '::fShmMtx' in ml.get(n.id, ()) else '!'
            if n.kind == 'write' and n.d['lhs'] == ('glob', MG + '::fRegionsGen'):
                return 'v'
            return None
        cnt = counter_writes(g)

        def edge(n, m, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            if key[0] == 'fld' and key[2] == UR + '::fRemoveOnDestruction':
                return 't' if lab == pol else 'f'
            return None
        lang(ctx, r, f.q, g, ev, '(A?X?(tD?)?o | A(X(f|t(DI|ID)) | f X | t (DIX|IDX|DXI|IXD|XDI|XID)))v+', edge=edge,
             legend='A acknowledgements stopped, X taken from this process, t/f removed on destruction or not, D marked as destroyed, I number of events plus one, o not found, v caches invalidated')
    # the generation of the caches changes with every removal
    for f in ctx.fns(MG + '::~Manager'):
        g = ctx.graph(f)
        lang(ctx, r, 'all regions', g, lambda n: 'v' if n.kind == 'write' and n.d['lhs'] == ('glob', MG + '::fRegionsGen') else None, 'v+', legend='v caches invalidated')


def cache(ctx):
    """a cached region is only used for the same id, the same session and while no region was removed"""
    r = 'cached'
    for f in ctx.fns(MG + '::GetRegionFromCache'):
        g = ctx.graph(f, inline=keep_fns(MG + '::GetRegion'))
        F = Facts(g)
        gen = ('glob', MG + '::fRegionsGen')

        tidx = {n.id: n.d.get('ta', '').lstrip('<')[:1] for n in g.nodes if n.kind == 'call' and n.d['q'] == 'std::get'}

        def part(t, i):
            """element i of a cache entry"""
            return any(y[0] == 'call' and y[1] == 'std::get' and tidx.get(y[4]) == str(i) or y[0] == 'idx' and y[2] == ('s', '#%d' % i) for s in srcs(g, t) for y in sub(s))
        rets = [n for n in g.nodes if n.id in g.live and n.kind == 'ret']
        for n in rets:
            ss = [peel(s) for s in srcs(g, n.d['term'])]
            hit = any(part(s, 0) for s in ss)
            if not hit:
                ctx.ob(r, 'looked up', all(s[0] == 'call' and s[1] == MG + '::GetRegion' and parm_idx(g, s[3][0]) == 0 for s in ss), where(n), 'not the region with the given id')
                continue

            def eq(pred):
                return edge_before(g, n, lambda key, v: v is True and key[:2] == ('op', '==') and (pred(key[2], key[3]) or pred(key[3], key[2])))
            ctx.ob(r, 'same id', eq(lambda a, b: parm_idx(g, a) == 0 and part(b, 1)), where(n), 'a cached region with another id is used')
            ctx.ob(r, 'same generation', eq(lambda a, b: any(y == gen for y in sub(a)) and any(y[0] == 'fld' and short(y[2]) == 'fRegionsTLCacheGen' for y in sub(g.resolve(b)))), where(n), 'a cached region may have been removed')
            ctx.ob(r, 'same session', eq(lambda a, b: fldq(g.resolve(a)) == MG + '::fShmId64' and part(b, 2)), where(n), 'a cached region of another session is used')
        loads = {}
        for n in g.nodes:
            if n.id in g.live and n.kind in ('decl', 'write') and n.d.get('rhs') is not None:
                v = n.d['var'] if n.kind == 'decl' else n.d['lhs']
                v = v if isinstance(v, tuple) else ('var', v, '')
                if v[0] == 'var' and any(y == gen for y in sub(n.d['rhs'])) and 'bool' not in g.vinfo.get(v[1], {}).get('t', ''):
                    loads[n.id] = v[1]

        def ev(n):
            if n.id in loads:
                return 'L'
            if n.kind == 'call' and n.d['q'] == MG + '::GetRegion':
                return 'G' if parm_idx(g, n.d['args'][0]) == 0 else '!'
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and short(n.d['lhs'][2]) == 'fRegionsTLCacheGen':
                t = strip(n.d['rhs'])
                return 'S' if t[0] == 'var' and t[1] in loads.values() else '!'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], MG + '::ManagerTLCache::fRegionsTLCache'):
                s = short(n.d['q'])
                if s == 'clear':
                    return 'C'
                if s in ('emplace_back', 'push_back'):
                    return 'E' if entry_ok(n) else '!'
            return None

        def entry_ok(n):
            a = list(n.d['args'])
            if len(a) == 1:
                t = strip(g.resolve(a[0]))
                a = list(t[3] if t[0] == 'call' else t[2] if t[0] == 'ctor' else t[1] if t[0] == 'init' else ())
            return len(a) == 3 and any(y[0] == 'call' and y[1] == MG + '::GetRegion' for s in srcs(g, a[0]) for y in sub(s)) and parm_idx(g, a[1]) == 0 and fldq(g.resolve(a[2])) == MG + '::fShmId64'

        def edge(n, m, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            if key[:2] == ('op', '==') and len(key) == 4 and any(any(y == gen for y in sub(g.resolve(x))) for x in key[2:4]) and any(any(y[0] == 'fld' and short(y[2]) == 'fRegionsTLCacheGen' for y in sub(g.resolve(x))) for x in key[2:4]):
                return 's' if lab == pol else 'd'
            return None
        lang(ctx, r, f.q, g, ev, '[sd]* | [sd]*L(s|dC)G(ES|SE)', edge=edge,
             legend='s/d generation the same/different, L generation read, C cache emptied, G looked up, E entered, S its generation stored')


def shared(ctx):
    """tables shared between threads or processes are only touched with their mutex held"""
    M = MG + '::'
    roots = [f for f in ctx.P.fns.values() if f.clsq == MG and f.acc == 'public' and f.body]
    table = {M + 'fRegions': M + 'fLocalRegionsMtx', M + 'fRegionEventsSubscriptionActive': M + 'fRegionEventsMtx', M + 'fRegionEventCallback': M + 'fRegionEventsMtx',
             M + 'fObservedRegionEvents': M + 'fRegionEventsMtx', M + 'fNumObservedEvents': M + 'fRegionEventsMtx', M + 'fBeatTheHeart': M + 'fHeartbeatsMtx'}
    guarded(ctx, 'guarded', roots, table)
    Z = ZC + '::'
    zroots = [f for f in ctx.P.fns.values() if f.clsq == ZC and f.acc == 'public' and f.body]
    guarded(ctx, 'guarded', zroots, {Z + x: Z + 'fMtx' for x in ('fRegionInfos', 'fRegionEvents', 'fRegionCounter', 'fRegionEventsSubscriptionActive')})
    v = ctx.P.vars.get(M + 'fRegionsGen') or {}
    ctx.ob('guarded', 'fRegionsGen', 'atomic' in str(v.get('t', '')) + str((v.get('init') or {}).get('t', '')), ('fairmq/shmem/Manager.h', v.get('line', 0)), 'read and written by several threads, not atomic')


def zmq_ids(ctx):
    r = 'zmq-ids'
    for f in ctx.fns('fair::mq::zmq::UnmanagedRegion::UnmanagedRegion'):
        g = ctx.graph(f, inline=keep_fns(ZC + '::NextRegionId'))
        ws = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and short(n.d['lhs'][2]) == 'fId']
        ctx.ob(r, 'fId', len(ws) == 1 and any(y[0] == 'call' and y[1].startswith(ZC + '::') and len(y[3]) == 0 for y in sub(g.resolve(ws[0].d['rhs']))), f.loc(), 'the id is not taken from the counter of the context')
    names = {y[1] for f in ctx.fns('fair::mq::zmq::UnmanagedRegion::UnmanagedRegion') for g in [ctx.graph(f, inline=keep_fns(ZC + '::NextRegionId'))] for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and short(n.d['lhs'][2]) == 'fId' for y in sub(g.resolve(n.d['rhs'])) if y[0] == 'call'}
    for q in sorted(names):
        for f in ctx.fns(q):
            g = ctx.graph(f)
            ws = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and fldq(n.d['lhs']) == ZC + '::fRegionCounter']
            ctx.ob(r, 'counter', all(plus(g, n) for n in ws), f.loc(), 'ids can repeat')
            lang(ctx, r, f.q, g, lambda n: 'I' if n in ws else None, 'I', legend='I the counter increases')


# ------------------------------------------------------------------ C23
BLK = SHM + '::RegionBlock'


@prop('C23', UNITS)
def c23(ctx):
    released(ctx)
    sender(ctx)
    receiver(ctx)
    stopped(ctx)
    queue(ctx)


def released(ctx):
    r = 'released'
    for f in ctx.fns(UR + '::ReleaseBlock'):
        g = ctx.graph(f)
        ml = must_locks(g)

        def ev(n):
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], UR + '::fBlocksToFree') and short(n.d['q']) in ('emplace_back', 'push_back', 'clear', 'pop_back', 'resize', 'erase', 'insert'):
                return 'P' if short(n.d['q']) in ('emplace_back', 'push_back') and len(n.d['args']) == 1 and parm_idx(g, peel(n.d['args'][0])) == 0 and UR + '::fBlockMtx' in ml.get(n.id, ()) else '!'
            return None
        lang(ctx, r, f.q, g, ev, 'P', legend='P the given block queued, with the mutex held')


def sizeof_blk(g, t):
    """c if the term is c * sizeof(RegionBlock), c a term"""
    t = strip(g.resolve(t))
    if t[0] == 'op' and t[1] == '*' and len(t) == 4:
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if strip(b)[0] == 'sizeof' and 'RegionBlock' in str(strip(b)[1]):
                return strip(a)
    return None


def reg_q(g, n, *names):
    """call on the acknowledgement queue"""
    return n.kind == 'call' and n.d.get('obj') is not None and short(n.d['q']) in names and fldq(peel(g.resolve(n.d['obj']))) == UR + '::fQueue'


def bunch(g, t):
    return fldq(g.resolve(t)) == UR + '::fAckBunchSize'


def sized_buf(g, t):
    """the buffer was made for fAckBunchSize blocks"""
    return any(y[0] == 'call' and short(y[1]) == 'make_unique' and y[3] and bunch(g, y[3][0]) or y[0] == 'new' and any(bunch(g, z) for z in sub(y)) for s in srcs(g, t) for y in sub(s))


def cond_field(F, n, lab, q):
    if n.kind == 'branch' and lab in (True, False):
        key, pol = F.key(n.d['cond'])
        if fldq(peel(key)) == q or key[0] == 'call' and key[2] is not None and fldq(peel(key[2])) == q and short(key[1]) in ('operator bool', 'load'):
            return lab == pol
    return None


def sender(ctx):
    """every queued block is sent, unless the receiver is stopped"""
    r = 'sent'
    for f in ctx.fns(UR + '::SendAcks'):
        g = ctx.graph(f)
        F = Facts(g)
        ml = must_locks(g)
        B = UR + '::fBlocksToFree'

        def count(t):
            """the number taken: at most all queued blocks and at most a bunch"""
            for s in srcs(g, t):
                s = strip(s)
                if constval(s) == 0:
                    continue
                if not (s[0] == 'call' and s[1] == 'std::min' and sorted([bunch(g, y) for y in s[3]]) == [False, True] and any(y[0] == 'call' and short(y[1]) == 'size' and y[2] is not None and base_is(g, y[2], B) for y in s[3])):
                    return False
            return True
        N = set()
        buf = []

        def tail(t, nv):
            """end() - n"""
            l = lin(g, t)
            ks = {k: v for k, v in l.items() if k != 1}
            t = strip(g.resolve(t))
            if t[0] == 'call' and short(t[1]) == 'operator-' and t[2] is not None:
                return strip(t[2])[0] == 'call' and short(strip(t[2])[1]) in ('end', 'cend') and base_is(g, strip(t[2])[2], B) and strip(t[3][0]) == nv
            return False

        def ev(n):
            if n.kind != 'call':
                return None
            s, a = short(n.d['q']), n.d['args']
            if n.d['q'] == 'std::copy_n' and any(y[0] == 'call' and y[2] is not None and base_is(g, y[2], B) for y in sub(g.resolve(a[0]))):
                nv = strip(a[1])
                N.add(nv)
                buf.append(a[2])
                return 'T' if nv[0] == 'var' and count(nv) and tail(a[0], nv) and UR + '::fBlockMtx' in ml.get(n.id, ()) and sized_buf(g, a[2]) else '!'
            if n.d['q'] == 'std::copy' and len(a) == 3 and any(y[0] == 'call' and y[2] is not None and base_is(g, y[2], B) for y in sub(g.resolve(a[0]))):
                t = strip(g.resolve(a[0]))
                nv = strip(t[3][0]) if t[0] == 'call' and t[3] else ('x', '')
                N.add(nv)
                buf.append(a[2])
                return 'T' if nv[0] == 'var' and count(nv) and tail(a[0], nv) and short(strip(g.resolve(a[1]))[1]) in ('end', 'cend') and UR + '::fBlockMtx' in ml.get(n.id, ()) and sized_buf(g, a[2]) else '!'
            if n.d.get('obj') is not None and base_is(g, n.d['obj'], B) and s in ('resize', 'erase', 'clear', 'pop_back', 'swap', 'assign', 'insert'):
                if UR + '::fBlockMtx' not in ml.get(n.id, ()):
                    return '!'
                if s == 'resize':
                    t = strip(a[0])
                    t = t if t[0] == 'op' else strip(g.resolve(t))
                    ok = t[0] == 'op' and t[1] == '-' and strip(t[2])[0] == 'call' and short(strip(t[2])[1]) == 'size' and base_is(g, strip(t[2])[2], B) and strip(t[3])[0] == 'var' and count(strip(t[3]))
                    N.add(strip(t[3]) if ok else None)
                    return 'Z' if ok else '!'
                if s == 'erase' and len(a) == 2:
                    t = strip(g.resolve(a[0]))
                    nv = strip(t[3][0]) if t[0] == 'call' and t[3] else ('x', '')
                    N.add(nv)
                    return 'Z' if nv[0] == 'var' and count(nv) and tail(a[0], nv) and short(strip(g.resolve(a[1]))[1]) in ('end', 'cend') else '!'
                return '!'
            return None

        def edge(n, m, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            raw = n.d['cond']
            st = cond_field(F, n, lab, UR + '::fStopAcks')
            if st is not None:
                return 'x' if st else 'c'
            if key[0] == 'call' and short(key[1]) in ('try_send', 'timed_send') and key[2] is not None and fldq(peel(key[2])) == UR + '::fQueue':
                return 's' if v else 'f'
            if key[:2] == ('op', '<') and constval(key[2]) == 0 and (strip(key[3]) in N or taken(key[3])):
                return 'p' if v else 'z'
            if key[:2] == ('op', '==') and any(constval(y) == 0 for y in key[2:4]) and any(strip(y) in N or taken(y) for y in key[2:4]):
                return 'z' if v else 'p'
            if key[0] == 'var' and (key in N) or raw in N:
                return 'p' if v else 'z'
            return None

        def taken(t):
            t = strip(t)
            return t[0] == 'var' and t in N or t[0] == 'call' and t[1] == 'std::min'
        for n in g.nodes:
            if n.id in g.live:
                ev(n)
        lang(ctx, r, f.q, g, ev, '((TZ|ZZZ)(p(f[c]|cf)*(s|fx|x)|zc))*TZzx', edge=edge,
             legend='T blocks taken from the end under the mutex, Z removed from the list, p/z some or none taken, s/f accepted by the queue or full, x/c stopping or not')
        ctx.ob(r, 'one count', len(N) == 1 and None not in N, f.loc(), 'the number of blocks copied and of those removed can differ')
        for n in g.nodes:
            if n.id in g.live and reg_q(g, n, 'send', 'try_send', 'timed_send'):
                c = sizeof_blk(g, n.d['args'][1]) or sizeof_blk_raw(n.d['args'][1])
                ctx.ob(r, 'what', c is not None and (c in N or taken(c)) and bool(buf) and all(peel(g.resolve(b)) == peel(g.resolve(n.d['args'][0])) for b in buf), where(n), 'not exactly the blocks that were taken')


def sizeof_blk_raw(t):
    t = strip(t)
    if t[0] == 'op' and t[1] == '*' and len(t) == 4:
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if strip(b)[0] == 'sizeof' and 'RegionBlock' in str(strip(b)[1]):
                return strip(a)
    return None


def receiver(ctx):
    """the callbacks get every received block once: address inside the region, size and hint"""
    r = 'called'
    for f in ctx.fns(UR + '::ReceiveAcks'):
        g = ctx.graph(f)
        F = Facts(g)
        rcv = [n for n in g.nodes if n.id in g.live and reg_q(g, n, 'timed_receive', 'receive', 'try_receive')]
        bufs = {peel(g.resolve(n.d['args'][0])) for n in rcv}
        sizes = {strip(n.d['args'][2]) for n in rcv if len(n.d['args']) > 2}
        for n in rcv:
            c = sizeof_blk(g, n.d['args'][1])
            ctx.ob(r, 'buffer', c is not None and bunch(g, c) and sized_buf(g, n.d['args'][0]), where(n), 'the buffer does not hold a whole bunch')

        def blk(t, name):
            """(index, True) if the term is blocks[index].name"""
            t = peel(g.resolve(t))
            if t[0] == 'fld' and t[2] == BLK + '::' + name:
                b = strip(t[1])
                if b[0] == 'call' and short(b[1]) == 'operator[]' and b[2] is not None and peel(g.resolve(b[2])) in bufs:
                    return strip(b[3][0])
                if b[0] == 'idx' and peel(g.resolve(b[1])) in bufs:
                    return strip(b[2])
                for s in srcs(g, b):
                    s = strip(s)
                    if s[0] == 'call' and short(s[1]) == 'operator[]' and s[2] is not None and peel(g.resolve(s[2])) in bufs:
                        return strip(s[3][0])
            return None

        def address(t):
            """index i if the term is the region's address plus blocks[i].fHandle"""
            l = {k: v for k, v in lin(g, t).items() if v}
            if len(l) != 2 or set(l.values()) != {1}:
                return None
            a = [k for k in l if k != 1 and k[0] == 'call' and short(k[1]) in ('get_address', 'GetData') and (fldq(k[2]) == UR + '::fRegion' or k[2] is not None and k[2][0] == 'this')]
            h = [k for k in l if k not in a and k != 1]
            return blk(h[0], 'fHandle') if len(a) == 1 and len(h) == 1 else None

        def triple(a):
            ix = {address(a[0]), blk(a[1], 'fSize'), hint(a[2])} if len(a) == 3 else {None}
            return len(ix) == 1 and None not in ix

        def hint(t):
            return blk(t, 'fHint')

        def unit(n):
            a = list(n.d['args'])
            if len(a) == 1:
                t = strip(g.resolve(a[0]))
                a = list(t[2] if t[0] == 'ctor' else t[1] if t[0] == 'init' else a)
            return triple(a)
        res = {peel(g.resolve(n.d['args'][0])) for n in g.nodes if n.id in g.live and n.kind == 'call' and short(n.d['q']) == 'operator()' and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == UR + '::fBulkCallback'}
        resv = {peel(n.d['args'][0]) for n in g.nodes if n.id in g.live and n.kind == 'call' and short(n.d['q']) == 'operator()' and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == UR + '::fBulkCallback'}

        def in_res(o):
            return peel(o) in resv or peel(g.resolve(o)) in res

        def ev(n):
            if n.kind == 'call' and n.d.get('obj') is not None:
                s = short(n.d['q'])
                q = fldq(peel(n.d['obj']))
                if s == 'operator()' and q == UR + '::fBulkCallback':
                    return 'K'
                if s == 'operator()' and q == UR + '::fCallback':
                    return 'C' if triple(n.d['args']) else '!'
                if in_res(n.d['obj']):
                    if s == 'clear':
                        return 'w'
                    if s in ('emplace_back', 'push_back'):
                        return 'A' if unit(n) else '!'
                    if s in ('pop_back', 'erase', 'resize', 'insert', 'swap'):
                        return '!'
            if n.kind == 'decl' and ('var', n.d['var'][1] if isinstance(n.d['var'], tuple) else n.d['var']) in {v[:2] for v in resv}:
                return 'w'
            return None

        def number(t):
            t = strip(g.resolve(t))
            return t[0] == 'op' and t[1] == '/' and strip(t[3])[0] == 'sizeof' and 'RegionBlock' in str(strip(t[3])[1]) and strip(t[2]) in sizes

        def edge(n, m, lab):
            if n.kind != 'branch' or lab not in (True, False):
                return None
            key, pol = F.key(n.d['cond'])
            v = lab == pol
            for q, (y, z) in ((UR + '::fStopAcks', 'xo'), (UR + '::fBulkCallback', 'bn'), (UR + '::fCallback', 'sd')):
                c = cond_field(F, n, lab, q)
                if c is not None:
                    return y if c else z
            if key[0] == 'call' and short(key[1]) in ('timed_receive', 'try_receive') and key[2] is not None and fldq(peel(key[2])) == UR + '::fQueue':
                return 'r' if v else 'e'
            if key[:2] == ('op', '<') and number(key[3]) and strip(key[2])[0] == 'var':
                return 'j' if v else 'k'
            if key[:2] == ('op', '==') and any(number(y) for y in key[2:4]):
                return 'k' if v else 'j'
            return None
        X = 'r(b[w]*(jA)*kK|n(s(jC)*k|d))'
        lang(ctx, r, f.q, g, ev, 'w*(o+(%s)*e)*x+(%s)*e' % (X, X), edge=edge,
             legend='x/o stopping or not, r/e blocks received or none, b/n bulk callback or not, s/d callback or not, j/k next block or all done, A added to the list, w list empty, K bulk callback, C callback with address, size and hint of the block')
        # the list is empty when it is filled
        lang(ctx, r, 'bulk list', g, lambda n: 'w' if ev(n) == 'w' else 'K' if ev(n) == 'K' else None, '(w+K?)*', legend='w the list is empty, K the bulk callback gets it')
        # counting through all blocks
        for n in g.nodes:
            if n.id in g.live and n.kind == 'branch':
                key, pol = F.key(n.d['cond'])
                if key[0] == 'op' and key[1] in ('<', '==') and any(number(y) for y in key[2:4]):
                    raw = norm(n.d['cond'])[0]
                    vs = [strip(y) for y in raw[2:4] if len(raw) == 4 and strip(y)[0] == 'var' and not number(y)]
                    i = vs[0] if vs else strip(key[2])
                    if i[0] != 'var':
                        continue
                    ds = [d for d in g.defs.get(i[1], []) if d is not None]
                    ok = sorted(0 if constval(d) == 0 else 1 if nz(diff(lin(g, d), {i: 1})) == {1: 1} else 2 for d in ds) in ([0, 1], [0])
                    ctx.ob(r, 'all blocks', ok, where(n), 'blocks are skipped')


def stopped(ctx):
    """blocks released before are still sent and received: the sender is finished before the receiver"""
    r = 'stopped'
    for q in (UR + '::StopAcks', UR + '::~UnmanagedRegion'):
        for f in ctx.fns(q):
            g = ctx.graph(f, inline=keep_fns(UR + '::StopAcks') if q.endswith('~UnmanagedRegion') else None)
            F = Facts(g)

            def ev(n):
                if n.kind == 'write' and fldq(n.d['lhs']) == UR + '::fStopAcks' or n.kind == 'call' and short(n.d['q']) == 'store' and fldq(peel(n.d['obj'])) == UR + '::fStopAcks':
                    return 'S' if cval(g, n.d['rhs'] if n.kind == 'write' else n.d['args'][0]) == 1 else '!'
                if n.kind == 'call' and n.d.get('obj') is not None and short(n.d['q']) == 'join':
                    return {UR + '::fAcksSender': 'A', UR + '::fAcksReceiver': 'B'}.get(fldq(peel(g.resolve(n.d['obj']))))
                if n.kind == 'call' and n.d['q'] == UR + '::StopAcks' and f.kind == 'dtor':
                    return 'Y'
                return None

            def edge(n, m, lab):
                c = cond_field(F, n, lab, UR + '::fControlling')
                if c is not None:
                    return 'k' if c else 'v'
                if n.kind == 'branch' and lab in (True, False):
                    key, pol = F.key(n.d['cond'])
                    if key[0] == 'call' and short(key[1]) == 'joinable' and key[2] is not None:
                        w = fldq(peel(key[2]))
                        return {UR + '::fAcksSender': 'st', UR + '::fAcksReceiver': 'ru'}.get(w, '!!')[lab != pol]
                return None
            rx = '[kv]*S+(sA|t)(rB|u)[kv]*' if f.kind != 'dtor' else '[kv]*(S+(sA|t)(k+(rB|u)k*|v+|[kv]*(rB|u)[kv]*)|Y[kv]*((rB|u)[kv]*)?)'
            lang(ctx, r, f.q, g, ev, rx, edge=edge, legend='S told to stop, s/t sender running or not, A sender finished, r/u receiver running or not, B receiver finished, k/v controller or view')
    for f in ctx.fns(MG + '::RemoveRegion'):
        g = ctx.graph(f, inline=lambda fn: not fn.q.startswith(UR + '::'))

        def ev(n):
            if n.kind == 'call' and n.d['q'] == UR + '::StopAcks':
                return 'A'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], FR) and short(n.d['q']) in ('extract', 'erase'):
                return 'X'
            return 'o' if n.kind == 'catch' else None
        lang(ctx, r, f.q, g, ev, 'AX|A?X?o', legend='A acknowledgements finished, X the region is removed, o not found')
    # each thread runs its own loop, once
    for name, fld, body in (('StartAckSender', 'fAcksSender', 'SendAcks'), ('StartAckReceiver', 'fAcksReceiver', 'ReceiveAcks')):
        for f in ctx.fns(UR + '::' + name):
            g = ctx.graph(f, inline=keep_fns(UR + '::SendAcks', UR + '::ReceiveAcks'))
            F = Facts(g)
            ok = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and fldq(n.d['lhs']) == UR + '::' + fld]
            from .rules_locks import thread_body
            for n in ok:
                ctx.ob(r, name, body in str(g.resolve(n.d['rhs'])) or any(body in str(x) for x in sub(g.resolve(n.d['rhs']))), where(n), 'the thread does not run %s' % body)

            def edge(n, m, lab):
                if n.kind == 'branch' and lab in (True, False):
                    key, pol = F.key(n.d['cond'])
                    if key[0] == 'call' and short(key[1]) == 'joinable':
                        return 'r' if lab == pol else 'u'
                return None
            lang(ctx, r, f.q, g, lambda n: 'T' if n in ok else None, 'r|uT', edge=edge, legend='r/u already running or not, T started')


def queue(ctx):
    """both ends use one queue whose messages hold a whole bunch"""
    r = 'queue'
    for f in ctx.fns(UR + '::InitializeQueues'):
        g = ctx.graph(f)
        F = Facts(g)
        mk = [n for n in g.nodes if n.id in g.live and (n.kind == 'call' and n.d['q'] == 'std::make_unique' and 'message_queue' in str(n.d.get('t')) or n.kind == 'new' and 'message_queue' in str(n.d.get('t')))]
        for n in mk:
            a = n.d['args']
            ctx.ob(r, 'name', len(a) >= 4 and any(y[0] == 'fld' and y[2] == UR + '::fQueueName' for y in sub(g.resolve(a[1]))), where(n), 'not the queue of the region')
            c = sizeof_blk(g, a[3]) if len(a) >= 4 else None
            ctx.ob(r, 'message size', c is not None and bunch(g, c), where(n), 'a bunch of blocks does not fit')
            ctx.ob(r, 'shared', any(y[0] == 'glob' and short(y[1]) == 'open_or_create' for y in sub(g.resolve(a[0]))), where(n), 'the ends do not share one queue')
        ws = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and fldq(n.d['lhs']) == UR + '::fQueue']

        def edge(n, m, lab):
            c = cond_field(F, n, lab, UR + '::fQueue')
            return None if c is None else 'q' if c else 'u'
        lang(ctx, r, f.q, g, lambda n: 'M' if n in mk else 'W' if n in ws else None, 'q|uMW', edge=edge, legend='q/u queue there or not, M made, W kept')


# ------------------------------------------------------------------ C24
EVT = 'fair::mq::RegionEvent'


@prop('C24', UNITS)
def c24(ctx):
    segment_event(ctx)
    infos(ctx)
    shm_events(ctx)
    subscriptions(ctx)
    zmq_tables(ctx)
    zmq_events(ctx)
    zmq_calls(ctx)


def evt(g, t):
    """name of the event a term is"""
    t = strip(g.resolve(t))
    return short(t[1]) if t[0] == 'enum' and t[1].startswith(EVT) else None


def evt_edge(F, n, lab, isev):
    """(what the event compared is, name, equal) of a branch"""
    if n.kind != 'branch' or lab not in (True, False):
        return None
    key, pol = F.key(n.d['cond'])
    if key[:2] == ('op', '==') and len(key) == 4:
        for a, b in ((key[2], key[3]), (key[3], key[2])):
            if b[0] == 'enum' and b[1].startswith(EVT):
                w = isev(a)
                if w:
                    return w, short(b[1]), lab == pol
    return None


def segment_event(ctx):
    """a new segment counts as one event"""
    r = 'segment'
    for f in ctx.fns(MG + '::Manager'):
        g = ctx.graph(f)
        F = Facts(g)
        ml = must_locks(g)
        cnt = counter_writes(g)
        SEG = MG + '::fShmSegments'
        idp = lambda t: fldq(g.resolve(t)) == MG + '::fSegmentId'

        def ev(n):
            if n in cnt:
                return 'I' if plus(g, n) and MG + '::fShmMtx' in ml.get(n.id, ()) else '!'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], SEG) and short(n.d['q']) in ('emplace', 'try_emplace', 'insert', 'erase', 'clear', 'insert_or_assign'):
                return 'E' if short(n.d['q']) in ('emplace', 'try_emplace') and idp(n.d['args'][0]) and MG + '::fShmMtx' in ml.get(n.id, ()) else '!'
            return None

        def edge(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                h = has_entry(g, key, lab == pol, SEG, idp)
                return {'absent': 'a', 'present': 'p', '?': '!'}.get(h)
            return None
        lang(ctx, r, f.q, g, ev, 'aE?I|aIE|p', edge=edge, keep=lambda k: k[0] in ('var',) or 'fShmSegments' in str(k), legend='a/p segment unknown/known in the session, E entered, I number of events plus one')


def infos(ctx):
    """one entry per segment and region, with its own data"""
    r = 'info'
    for f in ctx.fns(MG + '::GetRegionInfo'):
        g = ctx.graph(f, inline=OUTSIDE)
        F = Facts(g)
        ml = must_locks(g)
        recs = {('var', u, i.get('name', '')) for u, i in g.vinfo.items() if i.get('t', '').replace('const ', '') in ('RegionInfo', RI) and i.get('kind') != 'parm'}
        pushes = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and short(n.d['q']) in ('push_back', 'emplace_back') and 'fair::mq::RegionInfo' in n.d['q']]
        SEG = MG + '::fShmSegments'

        def src_table(t):
            es = entries(g, t)
            return {e[0] if e else None for e in es}

        def kind_of(n):
            """table whose loop encloses the node"""
            for h, body in loops_around(g, n):
                for b in body:
                    x = g.nodes[b]
                    if x.kind == 'branch':
                        ss = set(sub(g.resolve(x.d['cond']))) | set(g.sources(x.d['cond']))
                        for q in (SEG, FSR):
                            if any(fldq(s) == q for s in ss):
                                return q
            return None

        def good(n, w, v):
            q = kind_of(n)
            if w == 'managed':
                return cval(g, v) == (1 if q == SEG else 0)
            if w == 'id':
                es = entries(g, v)
                return bool(es) and all(e and e[0] == q and e[2] == 'key' for e in es)
            if w == 'flags':
                return q == FSR and info_field(g, v, 'fUserFlags')
            if w in ('ptr', 'size') and q == SEG:
                want = 'get_address' if w == 'ptr' else 'get_size'
                for s in srcs(g, v):
                    s = peel(s)
                    if not (s[0] == 'call' and short(s[1]) == want and s[2] is not None):
                        return False
                    es = entries(g, s[2])
                    if not es or not all(e and e[0] == MG + '::fSegments' and e[1] is not None and all(k and k[0] == SEG and k[2] == 'key' or k and k[0] is not None and False for k in entries(g, e[1])) or e and e[0] == MG + '::fSegments' and e[1] is not None and idkey(g, e[1]) == ('key', SEG) for e in es):
                        return False
                return True
            return True

        def step(n, s, fs):
            s = dict(s)
            if n.kind == 'decl':
                for c in recs:
                    if c[1] == (n.d['var'][1] if isinstance(n.d['var'], tuple) else n.d['var']):
                        s[c] = frozenset()
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][1] in recs:
                w = short(n.d['lhs'][2])
                s[n.d['lhs'][1]] = s.get(n.d['lhs'][1], frozenset()) | {w if good(n, w, n.d['rhs']) else '!' + w}
            yield tuple(sorted(s.items(), key=str))
        reached, _ = run(g, (), step)
        seen = set()
        for n in pushes:
            q = kind_of(n)
            c = peel(n.d['args'][0]) if n.d['args'] else None
            seen.add(q)
            if c not in recs:
                ctx.bad(r, 'entry', where(n), 'the entry is not a complete record')
                continue
            need = ['managed', 'id', 'event'] + (['ptr', 'size'] if q == SEG else ['flags'])
            bad = set()
            for fs, s in reached.get(n.id, ()):
                have = dict(s).get(c, frozenset())
                bad |= {w for w in need if w not in have} | {w for w in have if w[0] == '!'}
            ctx.ob(r, 'entry of %s' % ('segments' if q == SEG else 'regions'), not bad, where(n), 'without the right %s' % ', '.join(sorted(x.lstrip('!') for x in bad)))
            ctx.ob(r, 'locked', MG + '::fShmMtx' in ml.get(n.id, ()), where(n), 'the tables are read without their mutex')
        ctx.ob(r, 'both tables', {SEG, FSR} <= seen, f.loc(), 'not all segments and regions are reported')

        # created or destroyed
        def table_loop(n):
            key, pol = F.key(n.d['cond'])
            ss = set(sub(g.resolve(n.d['cond']))) | set(g.sources(n.d['cond']))
            for q, a in ((SEG, 'gh'), (FSR, 'jk')):
                if any(fldq(s) == q for s in ss) and whole_range(g, n, lambda t, q=q: fldq(peel(t)) == q):
                    return a
            return None

        def is_evt(t):
            t = strip(t)
            return t[0] == 'var' and 'RegionEvent' in g.vinfo.get(t[1], {}).get('t', '') or t[0] == 'fld' and t[2] == RI + '::event'

        def ev(n):
            if n in pushes:
                return 'P'
            if n.kind in ('write', 'decl') and n.d.get('rhs') is not None:
                l = n.d['lhs'] if n.kind == 'write' else n.d['var']
                if not isinstance(l, tuple):
                    l = ('var', l, '')
                if is_evt(l):
                    e = evt(g, n.d['rhs'])
                    return {'created': 'c', 'destroyed': 'd'}.get(e)
            return None

        def edge(n, m, lab):
            if n.kind != 'branch':
                return None
            if lab in (True, False):
                key, pol = F.key(n.d['cond'])
                if key[0] == 'fld' and key[2] == SRI + '::fDestroyed':
                    return 'D' if lab == pol else 'C'
            body = [l for m2, l in n.succ if l not in ('exc',)]
            t = loop_branch(n)
            if t:
                return t[0] if m.id in loop_body(n) else t[1]
            return None
        heads = {}
        for n in g.nodes:
            if n.id in g.live and n.kind == 'branch':
                ls = loops_around(g, n)
                if ls and any(m.id not in ls[0][1] for m, l in n.succ if l != 'exc'):
                    heads[n.id] = (table_loop(n), ls[0][1])

        def loop_branch(n):
            return heads.get(n.id, (None, None))[0]

        def loop_body(n):
            return heads[n.id][1]
        S, R = '(go*(c?P?o|cP))*h', '(j(Dd[DC]*P|Cc[DC]*P))*k'
        lang(ctx, r, 'state', g, lambda n: 'o' if n.kind == 'catch' else ev(n), '(%s%s|%s%s)' % (S, R, R, S), edge=edge,
             legend='g/h next segment or all done, j/k next region or all done, C/D region exists/destroyed, c/d reported as created/destroyed, P entry, o segment cannot be opened')

        # address and size of unmanaged regions
        rest = [n for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][2] in (RI + '::ptr', RI + '::size') and kind_of(n) is None]
        for n in rest:
            w = short(n.d['lhs'][2])
            v = peel(g.resolve(n.d['rhs']))
            if cval(g, n.d['rhs']) == 0:
                continue
            want = 'GetData' if w == 'ptr' else 'GetSize'
            rec = g.resolve(n.d['lhs'][1])
            keys = {idkey(g, e[1]) if e and e[0] == FR and e[1] is not None else None for e in nonnull(g, v[2])} if v[0] == 'call' and short(v[1]) == want and v[2] is not None else {None}
            ctx.ob(r, 'region ' + w, keys == {('fld', peel(rec), 'id')}, where(n), 'not of the region with the id of the entry')

        def isev(t):
            return 'e' if t[0] == 'fld' and t[2] == RI + '::event' else None

        def ev2(n):
            if n in rest:
                return {'ptr': 'P', 'size': 'S'}[short(n.d['lhs'][2])] if cval(g, n.d['rhs']) != 0 else {'ptr': '0', 'size': '1'}[short(n.d['lhs'][2])]
            return None

        def edge2(n, m, lab):
            if n.kind != 'branch' or kind_of(n) is not None:
                return None
            if n.id in heads and m.id in heads[n.id][1] and heads[n.id][0] is None and 'RegionInfo' in str(g.resolve(n.d['cond'])):
                return 'j'
            if n.id in heads and heads[n.id][0] is None and lab != 'exc':
                return 'k'
            x = evt_edge(F, n, lab, isev)
            if x:
                return 'c' if (x[1] == 'created') == x[2] else 'd'
            if lab in (True, False):
                key, pol = F.key(n.d['cond'])
                if key[0] == 'fld' and key[2] == RI + '::managed':
                    return 'm' if lab == pol else 'u'
                if lookup_cfg(key):
                    return 'a' if lab == pol else 'p'
            return None

        def lookup_cfg(key):
            return key[:2] == ('op', '==') and any(y[0] == 'call' and short(y[1]) == 'find' and 'RegionConfig' in y[1] for y in key[2:4])
        lang(ctx, r, 'address', g, ev2, '(j(m|ud|dm?|(uc|cu)p?(PS|SP)|(uc|cu)a(01|10)?|cm))*k', edge=edge2,
             legend='j/k next entry or all done, m/u managed or not, c/d created or destroyed, P/S address and size of the region, 0/1 none')


def shm_events(ctx):
    """a callback for every creation and for every destruction of something seen before, once each"""
    r = 'shm-events'
    for f in ctx.fns(MG + '::RegionEventsSubscription'):
        g = ctx.graph(f, inline=keep_fns(MG + '::GetRegionInfo'))
        F = Facts(g)
        OBS, NUM, CB = MG + '::fObservedRegionEvents', MG + '::fNumObservedEvents', MG + '::fRegionEventCallback'

        def elem(t):
            """the entry looked at"""
            for s in [peel(x) for x in srcs(g, t)]:
                if s[0] == 'call' and s[2] is not None and short(s[1]) in ('begin', 'cbegin', 'operator[]', 'at') and 'RegionInfo' in str(s[1]) + str(srcs(g, s[2])) or s[0] == 'op' and s[1] in ('elem', '[]') and 'RegionInfo' in str(s[2]) + str(srcs(g, s[2])) or s[0] == 'idx' and 'RegionInfo' in str(srcs(g, s[1])):
                    return True
            return peel(g.resolve(t))[0] == 'op' and peel(g.resolve(t))[1] == 'elem'

        def efld(t, w):
            t = peel(g.resolve(t))
            return t[0] == 'fld' and t[2] == RI + '::' + w and elem(t[1])

        def key_ok(t):
            for s in [g.resolve(t)] + srcs(g, t):
                s = strip(s)
                while s[0] == 'ctor' and len(s[2]) == 1:
                    s = strip(s[2][0])
                a = s[2] if s[0] == 'ctor' else s[1] if s[0] == 'init' else s[3] if s[0] == 'call' and short(s[1]) in ('make_pair', 'make_tuple') else ()
                if len(a) == 2 and efld(a[0], 'id') and efld(a[1], 'managed'):
                    return True
            return False

        def stored(t):
            t = strip(t)
            return in_obs(t)

        def in_obs(t):
            es = entries(g, t)
            return bool(es) and all(e and e[0] == OBS and e[2] == 'val' and e[1] is not None and key_ok(e[1]) for e in es)

        def ev(n):
            if n.kind == 'call' and short(n.d['q']) == 'operator()' and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == CB:
                return 'K' if elem(n.d['args'][0]) else '!'
            if n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], OBS) and short(n.d['q']) in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'erase', 'clear'):
                a = n.d['args']
                if len(a) == 2 and short(n.d['q']) in ('emplace', 'try_emplace', 'insert_or_assign'):
                    return 'E' if key_ok(a[0]) and efld(a[1], 'event') else '!'
                return '!'
            if n.kind == 'write' and n.d['lhs'][0] in ('fld', 'deref', 'idx', 'call') and in_obs(n.d['lhs']) and fldq(n.d['lhs']) != OBS:
                return 'U' if efld(n.d['rhs'], 'event') or evt(g, n.d['rhs']) == 'destroyed' else '!'
            if n.kind == 'write' and fldq(n.d['lhs']) == NUM:
                d = nz(diff(lin(g, n.d['rhs']), lin(g, n.d['lhs'])))
                return {1: '1', 2: '2'}.get(d.get(1), '!') if set(d) == {1} else '!'
            if n.kind == 'call' and n.d['q'] == MG + '::GetRegionInfo':
                return 'G'
            return None

        def isev(t):
            t0 = strip(t)
            if efld(t0, 'event'):
                return 'in'
            return 'st' if in_obs(t0) else None

        def edge(n, m, lab):
            if n.kind != 'branch':
                return None
            x = evt_edge(F, n, lab, isev)
            if x:
                c = (x[1] == 'created') == x[2]
                return {'in': 'cd', 'st': 'st'}[x[0]][0 if c else 1]
            if lab in (True, False):
                key, pol = F.key(n.d['cond'])
                v = lab == pol
                h = has_entry(g, key, v, OBS, key_ok)
                if h:
                    return {'absent': 'a', 'present': 'p'}.get(h, '!')
                if key[:2] == ('op', '==') and any(fldq(y) == NUM for y in key[2:4]) and any(y[0] == 'fld' and y[2] == SHM + '::EventCounter::fCount' for y in key[2:4]):
                    return 'e' if v else 'q'
                c = cond_field(F, n, lab, MG + '::fRegionEventsSubscriptionActive')
                if c is not None:
                    return 'y' if c else 'n'
            ls = loops_around(g, n)
            if ls and any(m2.id not in ls[0][1] for m2, l in n.succ if l != 'exc') and whole_range(g, n, lambda t: 'RegionInfo' in str(t)):
                return 'j' if m.id in ls[0][1] else 'k'
            return None
        upd = '(KU1|K1U|UK1|U1K|1KU|1UK)'
        el = 'j(aE(c(K1|1K)|d2)|ac(K1E|KE1|1KE)|ad2E|p(sd%s|ds%s|sc|cs?|t[cd]?|dt))' % (upd, upd)
        lang(ctx, r, f.q, g, ev, 'y*((qG(%s)*k|e)[yn]*)*n+' % el, edge=edge,
             legend='y/n still subscribed or not, q/e new events or none, G current state fetched, j/k next entry or all done, a/p not seen/seen before, c/d it is created/destroyed, s/t it was created/destroyed when last seen, E remembered, U updated, K callback with the entry, 1/2 events counted')


def subscriptions(ctx):
    r = 'subscription'
    for cls in (MG, ZC):
        T, A, CB = cls + '::fRegionEventThread', cls + '::fRegionEventsSubscriptionActive', cls + '::fRegionEventCallback'
        for name, rx in (('SubscribeToRegionEvents', '(y I J|u)(CAT|ACT)'), ('UnsubscribeFromRegionEvents', 'yIJ0?|u')):
            for f in ctx.fns(cls + '::' + name):
                g = ctx.graph(f, inline=keep_fns(cls + '::RegionEventsSubscription'))
                F = Facts(g)

                def ev(n):
                    if n.kind == 'write':
                        q = fldq(n.d['lhs'])
                        if q == A:
                            return {0: 'I', 1: 'A'}.get(cval(g, n.d['rhs']), '!')
                        if q == CB:
                            return '0' if cval(g, n.d['rhs']) == 0 else 'C' if 0 in parms_in(g, n.d['rhs']) else '!'
                        if q == T:
                            return 'T' if 'RegionEventsSubscription' in str(g.resolve(n.d['rhs'])) else '!'
                    if n.kind == 'call' and short(n.d['q']) == 'join' and n.d.get('obj') is not None and fldq(peel(g.resolve(n.d['obj']))) == T:
                        return 'J'
                    return None

                def edge(n, m, lab):
                    if n.kind == 'branch' and lab in (True, False):
                        key, pol = F.key(n.d['cond'])
                        if key[0] == 'call' and short(key[1]) == 'joinable' and key[2] is not None and fldq(peel(key[2])) == T:
                            return 'y' if lab == pol else 'u'
                    return None
                lang(ctx, r, f.q, g, ev, rx, edge=edge, legend='y/u subscribed before or not, I told to stop, J its thread joined, C the given callback stored, A active, T thread started, 0 callback dropped')


def rec_args(g, n, f):
    """the call passes the function's parameters in order"""
    a = list(n.d['args'])
    if len(a) == 1:
        t = strip(g.resolve(a[0]))
        a = list(t[2] if t[0] == 'ctor' else t[1] if t[0] == 'init' else a)
    return [parm_idx(g, peel(x)) for x in a] == list(range(len(f.params)))


def zmq_tables(ctx):
    r = 'zmq-events'
    INF, EVS = ZC + '::fRegionInfos', ZC + '::fRegionEvents'
    for f in ctx.fns(ZC + '::AddRegion'):
        g = ctx.graph(f)
        ml = must_locks(g)

        def ev(n):
            if n.kind == 'call' and n.d.get('obj') is not None:
                for q, a in ((INF, 'F'), (EVS, 'V')):
                    if base_is(g, n.d['obj'], q) and short(n.d['q']) in ('emplace_back', 'push_back', 'emplace', 'push', 'clear', 'pop', 'erase'):
                        return a if short(n.d['q']) not in ('clear', 'pop', 'erase') and rec_args(g, n, f) and ZC + '::fMtx' in ml.get(n.id, ()) else '!'
            return None
        lang(ctx, r, f.q, g, ev, 'FV|VF', legend='F entered in the list of regions, V event queued, both with the given data')
    # the record keeps what it is given
    for f in ctx.fns(RI + '::RegionInfo'):
        if len(f.params) != 6:
            continue
        g = ctx.graph(f)
        ws = {short(n.d['lhs'][2]): parm_idx(g, n.d['rhs']) for n in g.nodes if n.id in g.live and n.kind == 'write' and n.d['lhs'][0] == 'fld'}
        for i, w in enumerate(('managed', 'id', 'ptr', 'size', 'flags', 'event')):
            ctx.ob(r, 'record ' + w, ws.get(w) == i, f.loc(), 'not the given %s' % w)
    for f in ctx.fns(ZC + '::RemoveRegion'):
        g = ctx.graph(f)
        F = Facts(g)
        ml = must_locks(g)

        def found(t):
            """the element of the list with the given id"""
            for s in srcs(g, t):
                s = peel(s)
                if not (s[0] == 'call' and s[1] in ('std::find_if',) and any(base_is(g, strip(g.resolve(a))[2], INF) for a in s[3][:2] if strip(g.resolve(a))[0] == 'call' and strip(g.resolve(a))[2] is not None)) and not (s[0] == 'op' and s[1] == 'elem' and base_is(g, s[2], INF)) and not (s[0] == 'call' and short(s[1]) in ('begin',) and base_is(g, s[2], INF)):
                    return False
            return True

        def ev(n):
            if n.kind == 'call' and n.d.get('obj') is not None:
                s = short(n.d['q'])
                if base_is(g, n.d['obj'], EVS) and s in ('push', 'emplace', 'pop'):
                    return 'V' if s in ('push', 'emplace') and len(n.d['args']) == 1 and found(n.d['args'][0]) and ZC + '::fMtx' in ml.get(n.id, ()) else '!'
                if base_is(g, n.d['obj'], INF) and s in ('erase', 'clear', 'pop_back', 'emplace_back', 'push_back'):
                    return 'X' if s == 'erase' and len(n.d['args']) == 1 and found(n.d['args'][0]) and ZC + '::fMtx' in ml.get(n.id, ()) else '!'
            if n.kind == 'write' and n.d['lhs'][0] == 'fld' and n.d['lhs'][2] == RI + '::event':
                b = peel(g.resolve(n.d['lhs'][1]))
                return 'W' if evt(g, n.d['rhs']) == 'destroyed' and (b[0] == 'call' and short(b[1]) == 'back' and base_is(g, b[2], EVS) or found(b) or b[0] == 'var') else '!'
            return None

        def edge(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                if key[:2] == ('op', '==') and any(y[0] == 'call' and short(y[1]) in ('end', 'cend') and y[2] is not None and base_is(g, y[2], INF) for y in key[2:4]):
                    return 'n' if lab == pol else 'f'
            return None
        lang(ctx, r, f.q, g, ev, 'n|f(VWX|WVX|WXV|VXW)', edge=edge, legend='n/f not found or found, V event with the data of the region queued, W it says destroyed, X removed from the list')
        for n in g.find(lambda n: n.kind == 'call' and n.d['q'] == 'std::find_if'):
            lam = next((a for a in n.d['args'] if strip(g.resolve(a))[0] == 'lam'), None)
            ctx.ob(r, 'by id', lam is not None and by_id(ctx, g, strip(g.resolve(lam))), where(n), 'the region is not found by its id')


def by_id(ctx, g, lam):
    """the predicate compares the id of its argument with the captured id"""
    from .rules_channel import lam_fn
    lf = lam_fn(ctx, g, lam)
    if lf is None:
        return False
    h = ctx.graph(lf)
    F = Facts(h)

    def same(key, v):
        return v and key[:2] == ('op', '==') and [fldq(strip(h.resolve(y))) == RI + '::id' for y in key[2:4]].count(True) == 1
    for n in h.nodes:
        if n.id in h.live and n.kind == 'ret' and n.d.get('term') is not None:
            c = cval(h, n.d['term'])
            key, pol = F.key(h.resolve(n.d['term']))
            if not (same(key, pol) if c is None else edge_before(h, n, same) if c else edge_before(h, n, lambda k, v: same(k, not v))):
                return False
    return True


def zmq_events(ctx):
    r = 'zmq-events'
    EVS, CB = ZC + '::fRegionEvents', ZC + '::fRegionEventCallback'
    for f in ctx.fns(ZC + '::RegionEventsSubscription'):
        g = ctx.graph(f)
        F = Facts(g)
        ml = must_locks(g)
        copies = set()

        def front(t):
            return any(s[0] == 'call' and short(s[1]) == 'front' and s[2] is not None and base_is(g, s[2], EVS) for x in srcs(g, t) for s in [peel(x)])

        def ev(n):
            if n.kind == 'decl' and n.d.get('rhs') is not None and any(y[0] == 'call' and short(y[1]) == 'front' for y in sub(n.d['rhs'])):
                return 'f' if n.d.get('ref') else 'F'
            if n.kind == 'call' and n.d.get('obj') is not None:
                s = short(n.d['q'])
                if base_is(g, n.d['obj'], EVS) and s in ('pop', 'push', 'emplace'):
                    return 'P' if s == 'pop' and ZC + '::fMtx' in ml.get(n.id, ()) else '!'
                if s == 'operator()' and fldq(peel(n.d['obj'])) == CB:
                    return 'K' if front(n.d['args'][0]) else '!'
            return None

        def edge(n, m, lab):
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                if key[0] == 'call' and short(key[1]) == 'empty' and key[2] is not None and base_is(g, key[2], EVS):
                    return 'e' if lab == pol else 'n'
                c = cond_field(F, n, lab, ZC + '::fRegionEventsSubscriptionActive')
                if c is not None:
                    return 'a' if c else 'x'
            return None
        lang(ctx, r, f.q, g, ev, '[axen]*(n(FPK|f?KP|FKP)[axen]*)*x', edge=edge, legend='a/x still subscribed or not, n/e an event is queued or none, F/f copied from the queue/reference to it, P taken from the queue, K callback with it')
    for f in ctx.fns(ZC + '::GetRegionInfo'):
        g = ctx.graph(f)
        for n in g.find(lambda n: n.kind == 'ret'):
            ctx.ob(r, f.q, fldq(peel(g.resolve(n.d['term']))) == INFQ, where(n), 'not the list of regions')


INFQ = ZC + '::fRegionInfos'


def zmq_calls(ctx):
    """regions report their creation and destruction"""
    r = 'zmq-regions'
    ZU, ZT = 'fair::mq::zmq::UnmanagedRegion', 'fair::mq::zmq::TransportFactory'
    n_add = 0
    for f in ctx.P.fns.values():
        if f.clsq != ZT or not f.body or short(f.q) != 'CreateUnmanagedRegion':
            continue
        g = ctx.graph(f, inline=keep_fns(ZC + '::AddRegion', ZC + '::NextRegionId'))
        adds = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == ZC + '::AddRegion']
        if not adds:
            continue
        n_add += 1

        def ok(n):
            a = n.d['args']
            def getter(t, fld, get):
                t = peel(g.resolve(t))
                return t[0] == 'fld' and t[2] == ZU + '::' + fld or t[0] == 'call' and short(t[1]) == get
            return len(a) == 6 and cval(g, a[0]) == 0 and getter(a[1], 'fId', 'GetId') and getter(a[2], 'fBuffer', 'GetData') and getter(a[3], 'fSize', 'GetSize') and getter(a[4], 'fUserFlags', 'GetUserFlags') and evt(g, a[5]) == 'created'
        lang(ctx, r, '%s(%d)' % (f.q, len(f.params)), g, lambda n: ('A' if ok(n) else '!') if n in adds else None, 'A', legend='A reported as created with its id, address, size and flags')
    ctx.ob(r, 'created', n_add > 0, ('fairmq/zeromq/TransportFactory.h', 0), 'the creation of regions is not reported')
    for f in ctx.fns(ZU + '::~UnmanagedRegion'):
        g = ctx.graph(f, inline=keep_fns(ZC + '::RemoveRegion'))

        def ev(n):
            if n.kind == 'call' and n.d['q'] == ZC + '::RemoveRegion':
                return 'R' if fldq(peel(g.resolve(n.d['args'][0]))) == ZU + '::fId' else '!'
            if n.kind == 'call' and short(n.d['q']) == 'free':
                return 'F' if fldq(peel(g.resolve(n.d['args'][0]))) == ZU + '::fBuffer' else '!'
            return None
        lang(ctx, r, f.q, g, ev, 'RF', legend='R reported as destroyed, F memory freed')
    for f in ctx.fns('fair::mq::shmem::UnmanagedRegionImpl::~UnmanagedRegionImpl'):
        g = ctx.graph(f, inline=keep_fns(MG + '::RemoveRegion'))
        lang(ctx, 'shm-regions', f.q, g, lambda n: ('R' if short(fldq(peel(g.resolve(n.d['args'][0]))) or '') == 'fRegionId' else '!') if n.kind == 'call' and n.d['q'] == MG + '::RemoveRegion' else None, 'R', legend='R the region is removed from the session')
    # the factories pass everything on
    r = 'forwarded'
    for T, target in ((ZT, ZC), ('fair::mq::shmem::TransportFactory', MG)):
        for name in ('SubscribeToRegionEvents', 'UnsubscribeFromRegionEvents', 'SubscribedToRegionEvents', 'GetRegionInfo'):
            for f in ctx.fns(T + '::' + name):
                g = ctx.graph(f, inline=keep_fns(target + '::' + name))
                lang(ctx, r, f.q, g, lambda n: ('C' if [parm_idx(g, peel(a)) for a in n.d['args']] == list(range(len(f.params))) else '!') if n.kind == 'call' and n.d['q'] == target + '::' + name else None, 'C', legend='C passed on')
