"""C25: which shared memory objects exist, and who removes them when."""
from itertools import permutations
from .core import prop, Facts, short, show, sub, run
from .lib import *
from .rules_region import SHM, srcs, peel, cond_field
from .rules_shmmeta import lin, nz, diff
from .rules_shmmsg import MG, UR
from .rules_locks import lib_fns

MON = SHM + '::Monitor'
NAME = SHM + '::MakeShmName'
# kind of object -> (class whose remove() unlinks it, one per id?)
KINDS = {'mng': ('shared_memory_object', False), 'm': ('shared_memory_object', True), 'rg': ('shared_memory_object', True), 'rgq': ('message_queue', True), 'rrc': ('shared_memory_object', True),
         'ms': ('named_mutex', False)}
BIPC = 'boost::interprocess::'
RM = {'RemoveObject': 'shared_memory_object', 'RemoveFileMapping': 'file_mapping', 'RemoveQueue': 'message_queue', 'RemoveMutex': 'named_mutex', 'RemoveCondition': 'named_condition'}
CREATING = {'managed_shared_memory': 'shared_memory_object', 'basic_managed_shared_memory': 'shared_memory_object', 'shared_memory_object': 'shared_memory_object', 'message_queue_t': 'message_queue', 'named_mutex': 'named_mutex', 'file_mapping': 'file_mapping',
            'named_condition': 'named_condition'}


def keep_name(*more):
    ns = {NAME, *more} | {MON + '::' + x for x in RM}
    return lambda fn: fn.q not in ns


def perms(xs):
    return '(%s)' % '|'.join(''.join(p) for p in permutations(xs))


def strv(t):
    """literal string in a term"""
    t = strip(t)
    while t[0] == 'ctor' and t[2]:
        t = strip(t[2][0])
    return t[1] if t[0] == 's' else None


def names(g, t):
    """what the name may be: set of (kind, index term or None, prefix term or None); None for anything else"""
    out = set()
    for s in srcs(g, t):
        s = peel(s)
        while s[0] == 'ctor' and 'basic_string' in s[1] and s[2] and not (len(s[2]) > 1 and peel(s[2][1])[0] != 'ctor'):
            s = peel(s[2][0])
        if s[0] == 'var' and srcs(g, s) != [s]:
            out |= names(g, s)
            continue
        if s[0] == 'call' and s[1] == NAME:
            a = s[3]
            k = strv(a[1])
            i = a[2] if len(a) > 2 else None
            out.add((k, g.resolve(i) if i is not None else None, None))
        elif s[0] == 'call' and short(s[1]) == 'operator+' and len(s[3]) == 2:
            for k in names(g, s[3][1]):
                out.add((k[0], k[1], g.resolve(s[3][0])) if k and k[2] is None else None)
        elif s[0] == 'op' and s[1] == '+':
            for k in names(g, s[3]):
                out.add((k[0], k[1], g.resolve(s[2])) if k and k[2] is None else None)
        elif s[0] == 'fld' and s[2] in (UR + '::fName', UR + '::fQueueName', UR + '::fRefCountSegmentName'):
            out.add(({'fName': 'rg', 'fQueueName': 'rgq', 'fRefCountSegmentName': 'rrc'}[short(s[2])], ('fld', 'own id'), None))
        else:
            out.add(None)
    return out


def removal(n):
    """(class, name term) if the node unlinks an object"""
    if n.kind != 'call':
        return None
    q = n.d['q']
    if q.startswith(BIPC) and short(q) == 'remove' and n.d['args']:
        c = q[len(BIPC):].split('::')[0].split('<')[0]
        return {'message_queue_t': 'message_queue'}.get(c, c), n.d['args'][0]
    if q.startswith(MON + '::Remove') and short(q) in RM:
        return RM[short(q)], n.d['args'][0]
    return None


def shm_class(t):
    """class of a constructed interprocess object"""
    if t[0] == 'ctor':
        c = t[1].split('<')[0].split('::')[-1]
        return CREATING.get(c)
    return None


@prop('C25', ['fairmq/shmem/Monitor.cxx', 'fairmq/shmem/Manager.cxx', 'analyzer/inst_transport.cpp'])
def c25(ctx):
    object_names(ctx)
    cleanup(ctx)
    region_dtor(ctx)
    removers(ctx)
    wrappers(ctx)
    last_user(ctx)
    monitor(ctx)
    readers(ctx)
    algorithms(ctx)
    reset(ctx)


def shm_fns(ctx):
    return [f for f in lib_fns(ctx) if f.body and f.q.startswith(SHM + '::')]


def object_names(ctx):
    """every object opened or created has a name Cleanup knows, and the names are unique per session, kind and id"""
    r = 'names'
    for f in ctx.fns(NAME):
        g = ctx.graph(f, inline=keep_name())
        idx = len(f.params) == 3
        for n in g.find(lambda n: n.kind == 'ret' and n.d.get('term') is not None):
            ps = parms_in(g, n.d['term'])
            ok = ps == set(range(len(f.params)))
            t = g.resolve(n.d['term'])
            if idx:
                # kind and number are separated, so that kind+number cannot be another kind's name
                lits = [s[1] for s in sub(t) if s[0] == 's'] + [chr(s[1]) for s in sub(t) if s[0] == 'c' and isinstance(s[1], int) and 32 < s[1] < 127]
                ok = ok and any(x and not str(x)[-1].isalnum() for x in lits)
            ctx.ob(r, 'MakeShmName(%d)' % len(f.params), ok, where(n), 'the name does not contain all of session, kind%s' % (' and number' if idx else ''))
    seen = set()
    for f in shm_fns(ctx):
        if f.q == NAME or f.kind == 'lambda':
            continue
        g = ctx.graph(f, inline=lambda fn: False)
        for n in g.nodes:
            if n.id not in g.live or n.kind not in ('decl', 'call', 'write', 'new', 'ctor', 'init'):
                continue
            if n.kind == 'call' and n.d['q'] == NAME:
                k = strv(n.d['args'][1])
                ok = k in KINDS and (len(n.d['args']) == 3) == KINDS[k][1]
                ctx.ob(r, 'kind %s in %s' % (k, short(f.q)), ok, where(n), 'objects of the kind "%s"%s are not known to the cleanup' % (k, ' with a number' if len(n.d['args']) == 3 else ''))
            ts = [x for x in (n.d.get('rhs'), n.d.get('term')) if x is not None] + list(n.d.get('args') or [])
            if n.kind == 'new':
                ts.append(('ctor', n.d.get('t') or '', tuple(n.d.get('args') or ())))
            if n.kind == 'call' and short(n.d['q']) == 'make_unique':
                ts.append(('ctor', str(n.d.get('ta') or '').strip('<').split('<')[0].split(',')[0], tuple(n.d.get('args') or ())))
            for t in ts:
                for s in sub(t):
                    c = shm_class(s)
                    if c is None or len(s[2]) < 2:
                        continue
                    cand = [x for a in s[2] for x in names(g, a) if x]
                    for k in cand:
                        want = KINDS.get(k[0], (None,))[0]
                        ok = c == want or k[0] == 'rg' and c == 'file_mapping'
                        key = (k[0], c, short(f.q))
                        if key not in seen or not ok:
                            seen.add(key)
                            ctx.ob(r, 'object %s in %s' % (k[0], short(f.q)), ok, where(n), 'an object named as "%s" is a %s, it is removed as %s' % (k[0], c, want))
    have = {k for k, _, _ in seen}
    for k in KINDS:
        ctx.ob(r, 'users of %s' % k, k in have, ('fairmq/shmem/Common.h', 0), 'no object of this kind is opened anywhere')


def entry_of(g, t, what):
    """the term is part of the current element of the loop over the table of `what` ('RegionInfo' / 'SegmentInfo')"""
    ok = False
    for s in srcs(g, t):
        s = peel(s)
        while s[0] == 'fld' or s[0] == 'idx':
            s = peel(s[1])
        ss = srcs(g, s) if s[0] == 'var' else [s]
        for x in ss:
            x = peel(x)
            while x[0] in ('fld', 'idx'):
                x = peel(x[1])
            if x[0] == 'var' and srcs(g, x) != [x]:
                ss += srcs(g, x)
                continue
            if x[0] == 'op' and x[1] == 'elem' and table(g, x[2], what) or x[0] == 'call' and short(x[1]) in ('begin', 'cbegin') and x[2] is not None and table(g, x[2], what):
                ok = True
            elif not (x[0] == 'op' and x[1] == '+'):
                return False
    return ok


def table(g, t, what):
    """found in the management segment: the map of `what`"""
    for s in srcs(g, t):
        s = peel(s)
        if s[0] == 'var':
            if srcs(g, s) != [s] and table(g, s, what):
                return True
        while s[0] == 'fld':
            s = peel(s[1])
        if s[0] == 'call' and short(s[1]).split('<')[0] in ('find', 'find_or_construct'):
            m = [n for n in g.nodes if n.kind == 'call' and n.d.get('term') is not None and n.id == (s[4] if len(s) > 4 else None)]
            ta = str(m[0].d.get('ta') or '') if m else str(s)
            if what in ta:
                return True
    return False


def id_of(g, t, what):
    """the id (key) of the current entry"""
    if t is None or not entry_of(g, t, what):
        return False
    for s in srcs(g, t):
        s = peel(s)
        if s[0] == 'fld' and short(s[2]) == 'first' or s[0] == 'idx' and s[2] == ('s', '#0'):
            continue
        return False
    return True


def cleanup(ctx):
    """everything recorded in the management segment is removed, the management segment itself last; then reported"""
    r = 'cleanup'
    for f in ctx.fns(MON + '::Cleanup'):
        if not any('ShmId' in p['t'] for p in f.params):
            g = ctx.graph(f, inline=keep_name(MON + '::Cleanup', SHM + '::makeShmIdStr'))
            forwards(ctx, r, f, g, MON + '::Cleanup')
            continue
        g = ctx.graph(f, inline=keep_name())
        F = Facts(g)

        def path_of(t):
            return any(s[0] == 'fld' and short(s[2]) == 'fPath' for x in srcs(g, t) for s in deep(g, x))

        def ev(n):
            x = removal(n)
            if not x:
                return None
            ks = names(g, x[1])
            if len(ks) != 1 or None in ks:
                return '!'
            k, i, pre = next(iter(ks))
            if k == 'mng':
                return 'M' if x[0] == 'shared_memory_object' else '!'
            if k == 'm':
                return 'S' if x[0] == 'shared_memory_object' and id_of(g, i, 'SegmentInfo') else '!'
            if i is None or not id_of(g, i, 'RegionInfo'):
                return '!'
            if k == 'rg':
                return 'F' if x[0] == 'file_mapping' and pre is not None and path_of(pre) else 'O' if x[0] == 'shared_memory_object' and pre is None else '!'
            return {('rgq', 'message_queue'): 'Q', ('rrc', 'shared_memory_object'): 'R'}.get((k, x[0]), '!')

        def edge(n, m, lab):
            if n.kind != 'branch':
                return None
            if lab in (True, False):
                key, pol = F.key(n.d['cond'])
                v = lab == pol
                if key[0] == 'call' and short(key[1]) == 'empty' and key[2] is not None and path_of(key[2]):
                    return 'o' if v else 'p'
                if key[:2] == ('op', '==') and 0 in [cval(g, y) for y in key[2:4]]:
                    key, v = next((y for y in key[2:4] if cval(g, y) != 0), key), not v
                if key[0] == 'var' or key[0] == 'fld':
                    for w, (a, b) in (('RegionInfo', 'gb'), ('SegmentInfo', 'hi')):
                        if table(g, key, w) and not entry_of(g, key, w):
                            return a if v else b
            ls = loops_around(g, n)
            if ls and any(m2.id not in ls[0][1] for m2, l in n.succ if l != 'exc'):
                for w, (a, b) in (('RegionInfo', 'jk'), ('SegmentInfo', 'lt')):
                    if whole_range(g, n, lambda t: table(g, t, w)):
                        return a if m.id in ls[0][1] else b
            return None
        one = '(%s|%s|%s)' % (perms(['(pF|oO)', 'Q', 'R']), 'p' + perms('FQR'), 'o' + perms('OQR'))
        regs, segs = '(b|g?(j%s)*k)' % one, '(i|h?(lS)*t)'
        lang(ctx, r, f.q, g, ev, '(%s%s|%s%s)M|.*x' % (regs, segs, segs, regs), edge=lambda n, m, lab: 'x' if m.kind == 'catch' else edge(n, m, lab),
             legend='g/b table of regions found or not, j next region, k all done, p/o it has a path or not, F file removed, O object removed, Q queue removed, R reference counts removed, h/i table of segments found or not, l next segment, S removed, t all done, M management segment removed, x it does not exist')
        # reported
        n_em = 0
        for n in g.find(lambda n: removal(n) is not None):
            n_em += 1
            nm = removal(n)[1]
            rep = [m for m in g.nodes if m.id in g.live and m.kind == 'call' and short(m.d['q']) in ('emplace_back', 'push_back') and 'pair' in m.d['q']]
            miss = paths_missing(g, lambda m, n=n: m is n, lambda m: m in rep or m.kind == 'catch')
            ctx.ob(r, 'reported', not miss, where(n), 'a path does not report the removed object')
        ctx.ob(r, 'objects', n_em >= 5, f.loc(), 'objects are not removed')
    for f in ctx.fns(SHM + '::Remove'):
        g = ctx.graph(f)
        F = Facts(g)
        for n in g.find(lambda n: n.kind == 'ret' and n.d.get('term') is not None):
            for t in srcs(g, n.d['term']):
                t = strip(t)
                a = t[1] if t[0] == 'init' else t[2] if t[0] == 'ctor' else t[3] if t[0] == 'call' else ()
                ok = len(a) == 2 and parms_in(g, a[0]) == {0}
                if ok:
                    c = cval(g, a[1])

                    def isrm(k, v, w):
                        return k[0] == 'call' and short(k[1]) == 'remove' and v == w
                    ok = edge_before(g, n, lambda k, v: isrm(k, v, bool(c))) if c is not None else any(isrm(peel(s), True, True) for s in srcs(g, a[1]))
                ctx.ob(r, 'Remove result', ok, where(n), 'the result is not the name and whether it was removed')
    for f in ctx.fns(MON + '::CleanupFull'):
        if not any('ShmId' in p['t'] for p in f.params):
            g = ctx.graph(f, inline=keep_name(MON + '::CleanupFull', SHM + '::makeShmIdStr'))
            forwards(ctx, r, f, g, MON + '::CleanupFull')
            continue
        g = ctx.graph(f, inline=keep_name(MON + '::Cleanup'))

        def ev2(n):
            x = removal(n)
            if x:
                return 'X' if x[0] == 'named_mutex' and {k[0] if k else None for k in names(g, x[1])} == {'ms'} else '!'
            if n.kind == 'call' and n.d['q'] == MON + '::Cleanup':
                return 'C' if parms_in(g, n.d['args'][0]) == {0} else '!'
            return None
        lang(ctx, r, f.q, g, ev2, 'CX|XC', legend='C cleanup, X mutex of the monitor removed')


def forwards(ctx, r, f, g, q):
    cs = [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d['q'] == q]
    ok = len(cs) >= 1 and set(count_on_paths(g, lambda n: n in cs)) == {1}
    ctx.ob(r, '%s by session' % short(q), ok and all(parms_in(g, n.d['args'][0]) == {0} or any(s[0] == 'call' and s[1] == SHM + '::makeShmIdStr' for s in deep(g, n.d['args'][0])) for n in cs), f.loc(), 'does not do it for the id of the session')


def deep(g, t, depth=0):
    """the term, the terms it is made of, and where variables come from"""
    for s in sub(g.resolve(t)):
        yield s
        if s[0] == 'var' and depth < 5:
            for d in g.defs.get(s[1], []):
                if d is not None and d != s:
                    yield from deep(g, d, depth + 1)


def bag(ctx, rule, inst, g, classify, ok, edge=None, msg='', ends=('exit',)):
    """every path: set of events (upper-case twice: '2'+event) satisfies ok"""
    def add(s, e):
        if e is None:
            return s
        return s | {e} if e not in s or e.islower() else s | {'2' + e}

    def step(n, s, fs):
        yield add(s, classify(n))

    def ed(n, m, lab, s):
        e = edge(n, m, lab) if edge else None
        return add(s, e)
    reached, tr = run(g, frozenset(), step, ed, facts=True)
    end = {'exit': g.exit, 'exc': g.exc_exit}
    bad = None
    for e in ends:
        for fs, s in reached.get(end[e].id, ()) if end[e] is not None else ():
            s = add(s, classify(end[e]))
            if not ok(s):
                bad = s
    ctx.ob(rule, inst, bad is None, g.root.loc(), '%s (events: %s)' % (msg, ''.join(sorted(bad or ()))))


def region_dtor(ctx):
    """the controlling process removes its region with everything that belongs to it, when asked to; others remove nothing"""
    r = 'region dtor'
    for f in ctx.fns(UR + '::~UnmanagedRegion'):
        g = ctx.graph(f, inline=keep_name())
        F = Facts(g)

        def ev(n):
            x = removal(n)
            if not x:
                return None
            ks = names(g, x[1])
            if len(ks) != 1 or None in ks:
                return '!'
            k = next(iter(ks))[0]
            return {('rg', 'shared_memory_object'): 'O', ('rg', 'file_mapping'): 'F', ('rrc', 'shared_memory_object'): 'R', ('rgq', 'message_queue'): 'Q'}.get((k, x[0]), '!')

        def edge(n, m, lab):
            for q, (a, b) in (('fControlling', 'kv'), ('fRemoveOnDestruction', 'di'), ('fRefCountSegment', 'ry')):
                c = cond_field(F, n, lab, UR + '::' + q)
                if c is not None:
                    return a if c else b
            return None

        def ok(s):
            e = {x for x in s if not x.islower()}
            if 'v' in s:
                return not e
            if 'k' not in s or ('d' in s) == ('i' in s):
                return False
            if 'i' in s:
                return e <= {'Q'}
            return e == ({'O', 'F', 'Q'} if 'y' in s else {'O', 'F', 'Q', 'R'})
        bag(ctx, r, f.q, g, ev, ok, edge, 'k/v controlling or not, d/i to be removed or not, r/y with or without reference counts: O object, F file, Q queue, R reference counts removed; removed must be all if controlling and to be removed, and nothing if not controlling')


def owners(ctx, f, allowed, depth=0):
    """the listed functions on whose behalf f runs: the function around a lambda, the callers of a helper"""
    if f.q in allowed or depth > 4:
        return {f.q}
    if f.parent is not None:
        return owners(ctx, f.parent, allowed, depth + 1)
    out = set()
    for h in shm_fns(ctx):
        if h is not f and any(c.get('f') == f.id for c in ctx.P.calls(h)):
            out |= owners(ctx, h, allowed, depth + 1)
    return out or {f.q}


def removers(ctx):
    """objects are removed nowhere else"""
    r = 'removers'
    allowed = {MON + '::Cleanup': None, MON + '::CleanupFull': None, UR + '::~UnmanagedRegion': None, MON + '::~Monitor': {'ms'}, MON + '::ResetContent': {'rgq', 'rrc', 'mng'}, SHM + '::Segment::Remove': {'m'}}
    wrappers = {MON + '::' + x for x in RM} | {SHM + '::Remove'}
    n_ = 0
    for f in shm_fns(ctx):
        if f.q in wrappers or f.q in allowed and allowed[f.q] is None:
            continue
        g = ctx.graph(f, inline=lambda fn: False)
        for n in g.nodes:
            if n.id not in g.live or n.kind != 'call':
                continue
            x = removal(n)
            if x is None and n.d['q'] == SHM + '::Remove':
                x = (str(n.d.get('ta')), n.d['args'][0])
            if x is None:
                continue
            n_ += 1
            ks = {k[0] if k else None for k in names(g, x[1])}
            own = owners(ctx, f, allowed)
            ctx.ob(r, short(f.q), all(o in allowed and (allowed[o] is None or ks <= allowed[o] and bool(ks)) for o in own), where(n), 'removes %s' % ', '.join(sorted(map(str, ks))))
    ctx.ob(r, 'sites', n_ >= 3, ('fairmq/shmem/Monitor.cxx', 0), 'expected removals are missing')


def wrappers(ctx):
    r = 'wrappers'
    for w, c in RM.items():
        for f in ctx.fns(MON + '::' + w):
            g = ctx.graph(f)
            rm = [n for n in g.nodes if n.id in g.live and removal(n) and n.d['q'].startswith(BIPC)]
            ok = bool(rm) and set(count_on_paths(g, lambda n: n in rm)) == {1} and all(removal(n)[0] == c and parms_in(g, removal(n)[1]) == {0} for n in rm)
            ctx.ob(r, w, ok, f.loc(), 'does not remove the %s with the given name' % c)
            for n in g.find(lambda n: n.kind == 'ret' and n.d.get('term') is not None):
                c_ = cval(g, n.d['term'])
                good = any(short(s[1]) == 'remove' for x in srcs(g, n.d['term']) for s in [peel(x)] if s[0] == 'call') if c_ is None else edge_before(g, n, lambda k, v: k[0] == 'call' and short(k[1]) == 'remove' and v == bool(c_))
                ctx.ob(r, '%s result' % w, good, where(n), 'does not tell whether it was removed')


def last_user(ctx):
    """each manager counts itself once; the memory is removed by the one that makes the count zero, unless told not to"""
    r = 'last user'
    CNT, DC = SHM + '::DeviceCounter::fCount', MG + '::fDeviceCounter'
    LOCKQ = MG + '::fShmMtx'
    keep = keep_name(MON + '::Cleanup', MG + '::CleanupIfLast', MG + '::StartMonitor')

    def change(g, n):
        if n.kind == 'call' and short(n.d['q']) in ('operator++', 'operator--', 'fetch_add', 'fetch_sub', 'store', 'operator=', 'operator+=', 'operator-=', 'exchange') and n.d.get('obj') is not None and fldq(peel(g.resolve(n.d['obj']))) == CNT:
            q = short(n.d['q'])
            if q in ('operator++', 'operator--'):
                return None  # seen as a write
            a = cval(g, n.d['args'][0]) if n.d['args'] else None
            return {('fetch_add', 1): '+', ('operator+=', 1): '+', ('fetch_sub', 1): '-', ('operator-=', 1): '-'}.get((q, a), '!')
        if n.kind == 'write' and fldq(n.d['lhs']) == CNT:
            d = nz(diff(lin(g, n.d['rhs']), lin(g, n.d['lhs'])))
            return {1: '+', -1: '-'}.get(d.get(1), '!') if set(d) == {1} else '!'
        return None

    def made(g, n):
        """the counter constructed with one"""
        if n.kind != 'call' or short(n.d['q']) != 'operator()':
            return False
        return 'DeviceCounter' in n.d['q'] + str(n.d.get('cls')) or n.d.get('obj') is not None and 'DeviceCounter' in ''.join(str(m.d.get('ta')) for m in g.nodes if m.kind == 'call' and short(m.d['q']) in ('construct', 'find_or_construct') and m.d.get('term') == g.resolve(n.d['obj']))
    for f in shm_fns(ctx):
        if f.kind == 'ctor' and f.cls == SHM + '::DeviceCounter' or f.q.startswith(SHM + '::DeviceCounter::'):
            continue
        g = ctx.graph(f, inline=lambda fn: False)
        cs = [n for n in g.nodes if n.id in g.live and change(g, n)]
        if cs:
            ctx.ob(r, 'count changed in %s' % short(f.q), f.cls == MG or f.q.startswith(MG + '::'), where(cs[0]), 'the number of users is changed outside the manager')
    for f in ctx.fns(MG + '::Manager'):
        if not f.params or 'Manager' in f.params[0]['t']:
            continue
        g = ctx.graph(f, inline=keep)
        ml = must_locks(g)

        def ev(n):
            c = change(g, n)
            if c:
                return c if LOCKQ in ml.get(n.id, ()) or any('fShmMtx' in str(x) for x in ml.get(n.id, ())) else '!'
            if made(g, n):
                a = n.d['args']
                return '1' if len(a) == 1 and cval(g, a[0]) == 1 else '!'
            if n.kind == 'call' and n.d['q'] == MG + '::CleanupIfLast':
                return 'C'
            return None
        lang(ctx, r, f.q, g, ev, '(+|1)x', ends=('exit',), endsym={'exit': 'x'}, legend='+ counted, 1 counter made with one')
        words_exc(ctx, r, f, g, ev)
    for f in ctx.fns(MG + '::~Manager'):
        g = ctx.graph(f, inline=keep)
        ctx.ob(r, f.q, set(count_on_paths(g, lambda n: n.kind == 'call' and n.d['q'] == MG + '::CleanupIfLast')) == {1}, f.loc(), 'a path does not count itself out exactly once')
    for f in ctx.fns(MG + '::CleanupIfLast'):
        g = ctx.graph(f, inline=keep_name(MON + '::Cleanup'))
        F = Facts(g)
        ml = must_locks(g)

        def ev3(n):
            c = change(g, n)
            if c:
                return c if any('fShmMtx' in str(x) for x in ml.get(n.id, ())) else '!'
            if n.kind == 'call' and n.d['q'] == MON + '::Cleanup':
                return 'C' if any(fldq(s) == MG + '::fShmId' for s in deep(g, n.d['args'][0])) else '!'
            return None

        def edge(n, m, lab):
            if m.kind == 'catch':
                return 'x'
            c = cond_field(F, n, lab, MG + '::fNoCleanup')
            if c is not None:
                return 'n' if c else 'y'
            c = cond_field(F, n, lab, DC)
            if c is not None:
                return 'w' if c else 'u'
            if n.kind == 'branch' and lab in (True, False):
                key, pol = F.key(n.d['cond'])
                v = lab == pol
                if is_counter_null(key):
                    return 'u' if v else 'w'
                if key[:2] == ('op', '==') and any(cval(g, y) == 0 for y in key[2:4]) and any(mentions(y) for y in key[2:4]):
                    return 'z' if v else 'p'
                if mentions(key):
                    return 'p' if v else 'z'
                if key[0] == 'op' and key[1] in ('<', '<=') and any(mentions(y) for y in key[2:4]):
                    # count < 1, 0 < count, count <= 0
                    a, b = key[2:4]
                    if mentions(a) and (key[1], cval(g, b)) in (('<', 1), ('<=', 0)):
                        return 'z' if v else 'p'
                    if mentions(b) and (key[1], cval(g, a)) in (('<', 0), ('<=', 1)):
                        return 'p' if v else 'z'
                    return '!'
            return None

        def mentions(y):
            y = peel(g.resolve(y))
            if y[0] == 'call' and y[2] is not None and short(y[1]) in ('load', 'operator--', 'operator unsigned int'):
                y = peel(y[2])
            return fldq(y) == CNT or y[0] == 'var' and any(mentions_src(d) for d in g.defs.get(y[1], []))

        def mentions_src(d):
            d = peel(g.resolve(d)) if d is not None else ('x',)
            if d[0] == 'call' and d[2] is not None:
                d = peel(d[2])
            return fldq(d) == CNT

        def is_counter_null(key):
            return key[:2] == ('op', '==') and any(fldq(peel(g.resolve(y))) == DC for y in key[2:4]) and any(cval(g, y) == 0 for y in key[2:4])
        lang(ctx, r, f.q, g, ev3, '[nyx]*u|[wny]*x|[ny]*w[wny]*-([ny]*[pz]*[ny]*x|p[nyp]*|z[zny]*n|[ny]*nz|z[zny]*yz*C)|n+wn*-z+|y*wy*-z+C', edge=edge,
             legend='- counted out, p/z others left or none, n/y removal switched off or not, C cleaned up, u/w never counted or counted in, x the lock could not be taken')


def words_exc(ctx, r, f, g, ev):
    """an exception after counting counts out again"""
    # from the point where the count is raised to an exceptional exit CleanupIfLast is called
    st = [n for n in g.nodes if n.id in g.live and ev(n) in ('+', '1')]
    for n in st:
        seen, todo, bad = set(), [(m, False) for m, l in n.succ], None
        while todo:
            m, h = todo.pop()
            h = h or m.kind == 'catch'
            if (m.id, h) in seen:
                continue
            seen.add((m.id, h))
            if ev(m) == 'C':
                continue
            if m is g.exc_exit:
                bad = m
                break
            # failures of the clean-up itself are not followed
            todo += [(x, h) for x, l in m.succ if not (h and l == 'exc' and m.kind != 'throw')]
        ctx.ob(r, 'failed start', bad is None, where(n), 'a failing constructor stays counted as a user')


class Doms:
    def __init__(self, g):
        self.d = dominators(g)

    def get(self, i, default=()):
        b = self.d.get(i, 0)
        return [k for k in range(b.bit_length()) if b >> k & 1]


CLEANERS = (MON + '::Cleanup', MON + '::CleanupFull', MON + '::ResetContent')


def monitor(ctx):
    """view-only monitors remove nothing; monitoring ones clean up only what is no longer used"""
    r = 'monitor'
    VO, HB, CE = MON + '::fViewOnly', MON + '::fHeartbeatTriggered', MON + '::fCleanOnExit'
    keep = keep_name(*CLEANERS, MON + '::PrintShm', MON + '::PrintDebugInfo', MON + '::Watch', MON + '::Interactive', MON + '::CheckHeartbeats', *[MON + '::' + x for x in RM])
    n_sites = 0
    for name in ('Monitor', 'Run', 'Watch', 'Interactive', 'CheckHeartbeats', '~Monitor', 'SignalMonitor', 'CatchSignals'):
        for f in ctx.fns(MON + '::' + name):
            if f.params and 'Monitor' in f.params[0]['t']:
                continue
            g = ctx.graph(f, inline=keep)
            F = Facts(g)
            dom = Doms(g)
            for n in g.find(lambda n: removal(n) is not None or n.kind == 'call' and n.d['q'] in CLEANERS):
                n_sites += 1
                notview = edge_before(g, n, lambda k, v: fldq(peel(k)) == VO and not v)
                onexit = edge_before(g, n, lambda k, v: fldq(peel(k)) == CE and v)
                hb = edge_before(g, n, lambda k, v: any(fldq(peel(y)) == HB for y in sub(k)) and v and k[0] != 'op')
                gone = any(d < len(g.nodes) and g.nodes[d].kind == "catch" for d in dom.get(n.id, ()))
                ctx.ob(r, 'removal in %s' % name, notview or onexit or hb or gone, where(n), 'a monitor in view-only mode could remove shared memory')
                if name == 'Watch' and not gone:
                    def late(k, v):
                        # timeout < elapsed
                        return k[0] == 'op' and k[1] == '<' and v and fldq(peel(k[2])) == MON + '::fTimeoutInMS' and elapsed(g, k[3]) or k[0] == 'op' and k[1] == '<=' and not v and fldq(peel(k[3])) == MON + '::fTimeoutInMS' and elapsed(g, k[2])
                    ctx.ob(r, 'timeout', hb and edge_before(g, n, late), where(n), 'memory is removed although its users were alive less than the timeout ago')
            for n in g.find(lambda n: n.kind == 'write' and fldq(n.d['lhs']) == VO or n.kind == 'call' and short(n.d['q']) in ('store', 'operator=') and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == VO):
                ctx.ob(r, 'mode', name == 'Monitor' and parms_in(g, n.d['rhs'] if n.kind == 'write' else n.d['args'][0]) == {next((i for i, p in enumerate(f.params) if p['n'] == 'viewOnly'), 3)}, where(n), 'the mode is changed later')
            for n in g.nodes:
                if n.id not in g.live:
                    continue
                v = None
                if n.kind == 'write' and fldq(n.d['lhs']) == HB:
                    v = cval(g, n.d['rhs'])
                elif n.kind == 'call' and short(n.d['q']) in ('store', 'operator=') and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == HB:
                    v = cval(g, n.d['args'][0])
                else:
                    continue
                if v == 0:
                    continue
                ok = name == 'CheckHeartbeats' and v == 1 and edge_before(g, n, lambda k, v: k[:2] == ('op', '==') and not v and any('fCount' in str(g.resolve(y)) or any(short(s[2]) == 'fCount' for x in srcs(g, y) for s in deep(g, x) if s[0] == 'fld') for y in k[2:4]))
                ctx.ob(r, 'heartbeat', ok, where(n), 'a heartbeat is noted although the counter did not change')
            if name == 'CheckHeartbeats':
                wr = [n for n in g.nodes if n.id in g.live and (n.kind == 'call' and short(n.d['q']) in ('store', 'operator=') and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == MON + '::fLastHeartbeat' or n.kind == 'write' and fldq(n.d['lhs']) == MON + '::fLastHeartbeat')]
                tr = [n for n in g.nodes if n.id in g.live and (n.kind == 'write' and fldq(n.d['lhs']) == HB or n.kind == 'call' and short(n.d['q']) in ('store', 'operator=') and n.d.get('obj') is not None and fldq(peel(n.d['obj'])) == HB)]
                ctx.ob(r, 'time of heartbeat', bool(wr) and bool(tr) and all(any(n.id in dom.get(m.id, ()) or m.id in dom.get(n.id, ()) for n in wr) for m in tr), f.loc(), 'the time of the last heartbeat is not kept')
            if name == 'Run':
                ths = [n for n in g.nodes if n.id in g.live and 'CheckHeartbeats' in str([n.d.get('rhs'), n.d.get('args')]) and n.kind in ('write', 'decl', 'call')]
                for n in ths:
                    ctx.ob(r, 'heartbeats', edge_before(g, n, lambda k, v: fldq(peel(k)) == VO and not v), where(n), 'heartbeats are watched in view-only mode')
            if name in ('Monitor', '~Monitor'):
                def ev(n):
                    x = removal(n)
                    if x:
                        ks = {k[0] if k else None for k in names(g, x[1])}
                        return 'X' if x[0] == 'named_mutex' and ks == {'ms'} else '!'
                    if n.kind == 'decl' and n.d.get('rhs') is not None and n.d['rhs'][0] == 'ctor' and shm_class(n.d['rhs']) == 'named_mutex':
                        a = n.d['rhs'][2]
                        return 'L' if len(a) >= 2 and {k[0] if k else None for k in names(g, a[1])} == {'ms'} and 'create_only' in str(a[0]) else '!'
                    if n.kind == 'throw' and 'DaemonPresent' in str(n.d.get('term')):
                        return 'T'
                    return None

                def edge(n, m, lab):
                    if m.kind == 'catch':
                        return 'x'
                    c = cond_field(F, n, lab, VO)
                    if c is None and n.kind == 'branch' and name == 'Monitor':
                        key, pol = F.key(n.d['cond'])
                        if parm_idx(g, peel(key)) == next((i for i, p in enumerate(f.params) if p['n'] == 'viewOnly'), 3):
                            c = lab == pol
                    return None if c is None else 'v' if c else 'w'
                if name == 'Monitor':
                    lang(ctx, r, f.q, g, ev, '(v+|w+L)e|(w+L?x(Tt)?)p?', ends=('exit', 'exc'), edge=edge, endsym={'exit': 'e', 'exc': 'p'},
                         legend='v/w view-only or not, L mutex of the monitor created, x it exists already, T refused') if False else lang(ctx, r, f.q, g, ev, '(v+|w+L)e|w+xT', edge=edge, endsym={'exit': 'e'}, legend='v/w view-only or not, L mutex of the monitor created, x it exists already, T refused')
                else:
                    lang(ctx, r, f.q, g, ev, 'v+|w+X', edge=edge, legend='v/w view-only or not, X mutex of the monitor removed')
    ctx.ob(r, 'sites', n_sites >= 4, ('fairmq/shmem/Monitor.cxx', 0), 'the monitor never cleans up')


def elapsed(g, t):
    """now - time of the last heartbeat"""
    d = list(deep(g, t))
    return any(fldq(s) == MON + '::fLastHeartbeat' for s in d) and any(s[0] == 'call' and short(s[1]) == 'now' for s in d)


READERS = ('PrintShm', 'ListAll', 'PrintDebugInfo', 'GetDebugInfo', 'GetFreeMemory', 'SegmentIsPresent', 'RegionIsPresent', 'CheckHeartbeats')


def readers(ctx):
    """queries never create, change or remove shared memory"""
    r = 'readers'
    for name in READERS:
        for f in ctx.fns(MON + '::' + name):
            g = ctx.graph(f, inline=keep_name(*CLEANERS))
            bad = None
            for n in g.nodes:
                if n.id not in g.live:
                    continue
                if removal(n) or n.kind == 'call' and n.d['q'] in CLEANERS:
                    bad = bad or (n, 'removes shared memory')
                if n.kind == 'call' and n.d['q'].startswith(BIPC) and short(n.d['q']).split('<')[0] in ('construct', 'destroy', 'destroy_ptr', 'deallocate', 'allocate', 'shrink_to_fit', 'grow', 'zero_free_memory'):
                    bad = bad or (n, 'changes shared memory')
                if n.kind == 'new' and n.d.get('place'):
                    bad = bad or (n, 'overwrites shared memory')
                if n.kind == 'write' and any(s[0] == 'fld' and s[2].startswith(SHM + '::') and s[2].split('::')[-2] in ('DeviceCounter', 'EventCounter', 'RegionInfo', 'SegmentInfo', 'SessionInfo', 'RegionCounter', 'Heartbeat') for s in [peel(n.d['lhs'])]):
                    bad = bad or (n, 'changes shared memory')
                for t in [x for x in (n.d.get('rhs'), n.d.get('term')) if x is not None]:
                    for s in sub(t):
                        if shm_class(s) and len(s[2]) >= 2 and any(str(a).find(w) >= 0 for a in s[2][:1] for w in ('create_only', 'open_or_create')):
                            bad = bad or (n, 'creates shared memory')
            ctx.ob(r, name, bad is None, where(bad[0]) if bad else f.loc(), bad[1] if bad else '')


def algorithms(ctx):
    """a segment is opened with the allocation algorithm it was created with"""
    r = 'algorithm'
    RB, SQ = 'rbtree_best_fit', 'simple_seq_fit'
    n_ = 0

    def which(t):
        s = str(t)
        return RB if RB in s and SQ not in s else SQ if SQ in s and RB not in s else None

    def alg_facts(g, k, v):
        """(algorithm, known equal?)"""
        if k[:2] == ('op', '==') and any('llocationAlgorithm' in str(g.resolve(y)) + str(y) for y in k[2:4]):
            for y in k[2:4]:
                y0 = peel(g.resolve(y))
                if y0[0] in ('s',) and y0[1] in (RB, SQ):
                    return y0[1], v, 'req'
                if y0[0] == 's' or 'AllocationAlgorithm' in str(y0) and cval(g, y0) is not None and y0[0] != 'fld' or y0[0] == 'enum':
                    pass
                c = cval(g, y0)
                if c is not None and c in ALG and not (y0[0] == 'fld'):
                    return ALG[c], v, 'rec'
        return None
    ALG = {c['v']: c['n'] for c in enum_vals(ctx, SHM + '::AllocationAlgorithm')['c']}
    for f in shm_fns(ctx):
        if f.kind == 'lambda':
            continue
        g = ctx.graph(f, inline=lambda fn: False)
        for n in g.nodes:
            if n.id not in g.live or n.kind not in ('decl', 'call', 'ctor'):
                continue
            ts = [x for x in (n.d.get('rhs') if n.kind == 'decl' else None,) if x is not None] + (list(n.d['args']) if n.kind == 'call' and short(n.d['q']) in ('emplace', 'try_emplace', 'insert_or_assign') else [])
            for t in ts:
                for s in sub(g.resolve(t)):
                    if s[0] != 'ctor' or s[1].split('<')[0].split('::')[-1] not in ('basic_managed_shared_memory', 'RBTreeBestFitSegment', 'SimpleSeqFitSegment') or len(s[2]) < 2:
                        continue
                    ks = {k[0] if k else None for k in names(g, s[2][1])}
                    if ks != {'m'}:
                        continue
                    n_ += 1
                    w = seg_alg(ctx, n, s, f)
                    if w is None:
                        continue
                    other = SQ if w == RB else RB

                    def pred(k, v):
                        a = alg_facts(g, k, v)
                        return a is not None and (a[0] == w and a[1] or a[2] == 'rec' and a[0] == other and not a[1])
                    ctx.ob(r, '%s: %s' % (short(f.q), w), edge_before(g, n, pred), where(n), 'opened with %s without checking that this is its algorithm' % w)
    ctx.ob(r, 'sites', n_ >= 6, ('fairmq/shmem/Manager.h', 0), 'segments are opened elsewhere')


def seg_alg(ctx, n, s, f):
    t = s[1]
    return 'rbtree_best_fit' if 'rbtree_best_fit' in t or 'RBTreeBestFit' in t else 'simple_seq_fit' if 'simple_seq_fit' in t or 'SimpleSeqFit' in t else None


def reset(ctx):
    r = 'reset'
    for f in ctx.fns(MON + '::ResetContent'):
        if not any('ShmId' in p['t'] for p in f.params):
            g = ctx.graph(f, inline=keep_name(MON + '::ResetContent', SHM + '::makeShmIdStr'))
            forwards(ctx, r, f, g, MON + '::ResetContent')
            continue
        if len(f.params) == 2:
            continue
        g = ctx.graph(f, inline=keep_name(MON + '::ResetContent', SHM + '::Segment::Register', UR + '::Register'))
        F = Facts(g)

        def ev(n):
            x = removal(n)
            if x:
                return 'X' if x[0] == 'shared_memory_object' and {k[0] if k else None for k in names(g, x[1])} == {'mng'} else '!'
            if n.kind == 'decl' and n.d.get('rhs') is not None and n.d['rhs'][0] == 'ctor' and shm_class(n.d['rhs']):
                a = n.d['rhs'][2]
                return 'N' if len(a) > 2 and 'create_only' in str(a[0]) and {k[0] if k else None for k in names(g, a[1])} == {'mng'} else '!'
            if n.kind == 'call' and n.d['q'] == SHM + '::Segment::Register':
                return 'S' if elem_of(g, n.d['args'][1], 1) else '!'
            if n.kind == 'call' and n.d['q'] == UR + '::Register':
                return 'R' if elem_of(g, n.d['args'][1], 2) else '!'
            if n.kind == 'call' and n.d['q'] == MON + '::ResetContent':
                return 'C' if parms_in(g, n.d['args'][0]) == {0} else '!'
            return None

        def edge(n, m, lab):
            ls = loops_around(g, n)
            if n.kind == 'branch' and ls and any(m2.id not in ls[0][1] for m2, l in n.succ if l != 'exc'):
                for i, (a, b) in ((1, 'jk'), (2, 'lt')):
                    if whole_range(g, n, lambda t: parm_idx(g, peel(t)) == i):
                        return a if m.id in ls[0][1] else b
            return None
        lang(ctx, r, f.q, g, ev, 'XN((jS)*k(lR)*t|(lR)*t(jS)*k)C', edge=edge, legend='X management segment removed, N made anew, j next segment, S registered, k all segments, l next region, R registered, t all regions, C content reset')
        # algorithm of each segment
        for n in g.find(lambda n: n.kind == 'call' and n.d['q'] == SHM + '::Segment::Register'):
            ev_ = {c['v']: c['n'] for c in enum_vals(ctx, SHM + '::AllocationAlgorithm')['c']}
            w = ev_.get(cval(g, n.d['args'][2]))
            ctx.ob(r, 'algorithm %s' % w, w is not None and edge_before(g, n, lambda k, v: v and k[:2] == ('op', '==') and any(peel(g.resolve(y)) == ('s', w) or strv(y) == w for y in k[2:4])), where(n), 'registered with another algorithm than requested')


def elem_of(g, t, i):
    """part of the current element of the list given as parameter i"""
    return any(s[0] == 'op' and s[1] == 'elem' and parm_idx(g, peel(g.resolve(s[2]))) == i for x in srcs(g, t) for s in deep(g, x)) or any(s[0] == 'call' and short(s[1]) in ('begin', 'cbegin', 'operator[]', 'at') and s[2] is not None and parm_idx(g, peel(g.resolve(s[2]))) == i for x in srcs(g, t) for s in deep(g, x))
