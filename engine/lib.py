"""Reusable static analyses over event graphs."""
from collections import deque
from .flow import LOCK_TYPES, WAITS, run, must_facts, show, sub, short, fmt_trace, norm, Facts, constval


# ------------------------------------------------------------------ predicates on nodes / terms
def is_call(n, *names):
    if n.kind != 'call':
        return False
    q = n.d['q']
    return q in names or short(q) in names


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('deref', 'addr'):
        t = t[1]
    return t


def fldq(t):
    """qualified name of the (last) field/global a term denotes, through derefs"""
    t = strip(t)
    if t and t[0] == 'fld':
        return t[2]
    if t and t[0] == 'glob':
        return t[1]
    return None


def rooted(g, t, q):
    """term t denotes (part of) the object held in field/global q"""
    for s in sub(g.resolve(t)):
        if s[0] == 'fld' and s[2] == q or s[0] == 'glob' and s[1] == q:
            return True
    return False


def based(g, t, q):
    """the access chain of t (members, elements, accessor calls, iterators) starts at field/global q"""
    t = g.resolve(t)
    while isinstance(t, tuple) and t:
        if t[0] == 'fld' and t[2] == q or t[0] == 'glob' and t[1] == q:
            return True
        if t[0] in ('fld', 'idx', 'deref', 'addr'):
            t = t[1]
        elif t[0] == 'call' and t[2] is not None:
            t = t[2]
        elif t[0] == 'call' and t[3] and short(t[1]) in ('get', 'any_cast', 'begin', 'end', 'next', 'prev', 'operator->', 'operator*'):
            t = t[3][0]
        else:
            return False
    return False


def base_is(g, t, q):
    """the container/object expression t is exactly field q (through derefs / resolved aliases)"""
    return fldq(g.resolve(t)) == q


def root_path(g, t):
    """(root term, list of field names) of an access path"""
    t = strip(g.resolve(t))
    path = []
    while t and t[0] in ('fld', 'idx', 'deref', 'addr'):
        if t[0] == 'fld':
            path.append(short(t[2]))
            t = t[1]
        elif t[0] == 'idx':
            path.append('[]')
            t = t[1]
        else:
            t = t[1]
    return t, list(reversed(path))


# ------------------------------------------------------------------ locks
MUTEX_HINT = ('mutex',)


def lock_name(g, t):
    t = strip(g.resolve(t))
    q = fldq(t)
    if q:
        return q
    if t and t[0] == 'call':
        # accessor returning a mutex
        return t[1]
    return show(t)


def lock_effect(g, n):
    """list of ('acq'|'rel'|'relvar'|'acqvar', guard key, mutex name or None) for a node"""
    k = n.kind
    d = n.d
    if k == 'ctor' and d['t'].startswith(LOCK_TYPES):
        tgt = d.get('target')
        tgt = tgt if tgt is not None else ('x', 'tmp%d' % n.id)
        if not d['args']:
            return []
        deferred = any(('defer_lock' in show(a) or 'try_to_lock' in show(a)) for a in d['args'][1:])
        names = [lock_name(g, a) for a in d['args'] if not any(x in show(a) for x in ('defer_lock', 'adopt_lock', 'try_to_lock', 'accept_ownership'))]
        return [('bind', tgt, nm) for nm in names] + ([] if deferred else [('acq', tgt, nm) for nm in names])
    if k == 'dtor' and d['t'].startswith(LOCK_TYPES):
        return [('relvar', d['var'], None)]
    if k == 'call' and d.get('obj') is not None:
        nm = short(d['q'])
        if d['cls'].startswith(LOCK_TYPES):
            if nm in ('lock', 'try_lock'):
                return [('acqvar', d['obj'], None)]
            if nm in ('unlock', 'release'):
                return [('relvar', d['obj'], None)]
        elif 'mutex' in d['cls']:
            if nm in ('lock', 'try_lock', 'lock_shared'):
                return [('acq', ('x', 'raw'), lock_name(g, d['obj']))]
            if nm in ('unlock', 'unlock_shared'):
                return [('relmtx', None, lock_name(g, d['obj']))]
    if k == 'call' and d['q'] == 'std::lock':
        return [('acq', ('x', 'raw'), lock_name(g, a)) for a in d['args']]
    return []


def step_locks(g, n, held, binds):
    """held: frozenset of (guard, mutex); binds: dict guard -> mutexes (global to the graph)"""
    for e, gv, m in lock_effect(g, n):
        if e == 'bind':
            binds.setdefault(gv, set()).add(m)
        elif e == 'acq':
            held = held | {(gv, m)}
        elif e == 'acqvar':
            for mm in binds.get(gv, ()):
                held = held | {(gv, mm)}
        elif e == 'relvar':
            held = frozenset(x for x in held if x[0] != gv)
        elif e == 'relmtx':
            held = frozenset(x for x in held if x[1] != m)
    return held


def must_locks(g):
    """node id -> frozenset of mutex names held on every path before the node"""
    if getattr(g, '_ml', None) is not None:
        return g._ml
    IN = {g.entry.id: frozenset()}
    binds = {}
    for n in g.nodes:
        for e, gv, m in lock_effect(g, n):
            if e == 'bind':
                binds.setdefault(gv, set()).add(m)
    wl = deque([g.entry])
    while wl:
        n = wl.popleft()
        out = step_locks(g, n, IN[n.id], binds)
        for m, lab in n.succ:
            o = out
            if lab == 'exc' and n.kind == 'ctor':
                o = IN[n.id]
            if m.id not in IN:
                IN[m.id] = o
            else:
                h = IN[m.id] & o
                if h == IN[m.id]:
                    continue
                IN[m.id] = h
            wl.append(m)
    g._ml = {i: frozenset(m for _, m in s) for i, s in IN.items()}
    return g._ml


def may_locks(g):
    """node id -> mutexes possibly held before the node"""
    if getattr(g, '_yl', None) is not None:
        return g._yl
    IN = {g.entry.id: frozenset()}
    binds = {}
    for n in g.nodes:
        for e, gv, m in lock_effect(g, n):
            if e == 'bind':
                binds.setdefault(gv, set()).add(m)
    wl = deque([g.entry])
    while wl:
        n = wl.popleft()
        out = step_locks(g, n, IN[n.id], binds)
        for m, lab in n.succ:
            o = out
            if lab == 'exc' and n.kind == 'ctor':
                o = IN[n.id]
            if m.id not in IN:
                IN[m.id] = o
            else:
                h = IN[m.id] | o
                if h == IN[m.id]:
                    continue
                IN[m.id] = h
            wl.append(m)
    g._yl = {i: frozenset(m for _, m in s) for i, s in IN.items()}
    return g._yl


def where(n):
    return n.loc()


def guarded(ctx, rule, roots, table, skip=None, allow_ctor=True):
    """every access to each field in `table` (field qname -> mutex qname) holds the mutex.
    roots: functions where execution may start with no lock held."""
    fields = frozenset(table)
    hits = {}
    for r in roots:
        if allow_ctor and r.kind in ('ctor', 'dtor'):
            continue
        g = ctx.graph(r, reads=fields)
        ml = must_locks(g)
        for n in g.nodes:
            if n.kind != 'acc' or n.id not in g.live:
                continue
            f = n.d['q']
            if skip and skip(g, n, r):
                continue
            ok = table[f] in ml.get(n.id, ())
            key = '%s in %s' % (short_f(f), owner(n))
            h = hits.setdefault(key, [True, None])
            if not ok:
                h[0] = False
                h[1] = (n, r)
    for key, (ok, w) in sorted(hits.items()):
        if ok:
            ctx.good(rule, key)
        else:
            n, r = w
            ctx.bad(rule, key, where(n), 'accessed without %s held (reached from %s)' % (short_f(table[n.d['q']]), r.q))
    return hits


def short_f(q):
    p = q.split('::')
    return '::'.join(p[-2:])


def owner(n):
    f = n.fn
    while f is not None and f.kind == 'lambda' and f.parent is not None:
        f = f.parent
    return short_f(f.q) if f else '?'


# ------------------------------------------------------------------ container lookups
LOOKUP = ('find', 'count', 'contains')


def lookup_kind(g, key, val, q):
    """does fact (key==val) say that a lookup in container field q found ('present') or missed ('absent')?"""
    if not isinstance(val, bool):
        return None
    if key[0] == 'op' and key[1] == '==' and len(key) == 4:
        a, b = key[2], key[3]
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and short(x[1]) == 'find' and x[2] is not None and rooted(g, x[2], q):
                if y[0] == 'call' and short(y[1]) in ('end', 'cend'):
                    return 'absent' if val else 'present'
            if x[0] == 'call' and x[1] == 'std::find' and len(x[3]) == 3 and any(s[0] == 'call' and short(s[1]) in ('begin', 'cbegin') and s[2] is not None and rooted(g, s[2], q) for s in [g.resolve(x[3][0])]):
                if y[0] == 'call' and short(y[1]) in ('end', 'cend'):
                    return 'absent' if val else 'present'
            if x[0] == 'call' and short(x[1]) == 'count' and x[2] is not None and rooted(g, x[2], q):
                c = constval(y)
                if c == 0:
                    return 'absent' if val else 'present'
                if c == 1:
                    return 'present' if val else 'absent'
    if key[0] == 'op' and key[1] == '<' and len(key) == 4:
        a, b = key[2], key[3]
        if constval(a) == 0 and b[0] == 'call' and short(b[1]) == 'count' and rooted(g, b[2], q):
            return 'present' if val else 'absent'
    if key[0] == 'call' and short(key[1]) in ('count', 'contains') and key[2] is not None and rooted(g, key[2], q):
        return 'present' if val else 'absent'
    return None


def edge_lookup(F, g, n, lab, q):
    if n.kind == 'branch' and lab in (True, False):
        key, pol = F.key(n.d['cond'])
        return lookup_kind(g, key, lab if pol else not lab, q)
    return None


INSERTERS = ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'push_back', 'emplace_back', 'emplace_hint', 'push')


# ------------------------------------------------------------------ generic path queries
def paths_missing(g, start_pred, need_pred, ends=('exit',), facts=True, avoid=None):
    """Is there a path from a node satisfying start_pred (None: entry) to an end without passing a
    node satisfying need_pred afterwards? Returns list of (start node, trace)."""
    bad = []

    def step(n, s, fs):
        if s == 0:
            if start_pred is None or start_pred(n):
                if need_pred(n) and start_pred is None:
                    return (2,)
                return (1,)
            return (0,)
        if s == 1:
            if need_pred(n):
                return (2,)
            if start_pred is not None and start_pred(n):
                return (1,)
        if s == 2 and start_pred is not None and start_pred(n):
            return (1,)
        return (s,)
    reached, trace = run(g, 0, step, facts=facts)
    for e in ends:
        en = {'exit': g.exit, 'exc': g.exc_exit}[e]
        for st in reached.get(en.id, ()):
            if st[1] == 1:
                bad.append((en, fmt_trace(trace(en, st))))
                break
    return bad


def passes_before(g, target_pred, need_pred, facts=True, reset_pred=None):
    """targets reachable without first passing a need node. Returns list of (node, trace)"""
    bad = {}

    def step(n, s, fs):
        if need_pred(n):
            s = True
        elif reset_pred is not None and reset_pred(n):
            s = False
        return (s,)
    reached, trace = run(g, False, step, facts=facts)
    for n in g.nodes:
        if n.id in reached and target_pred(n):
            for st in reached[n.id]:
                if not st[1] and not need_pred(n):
                    bad[n.id] = (n, fmt_trace(trace(n, st)))
                    break
    return list(bad.values())


def count_on_paths(g, pred, cap=3, facts=True, ends=('exit',)):
    """set of numbers of pred-nodes passed on paths to the normal exit (capped)"""
    def step(n, s, fs):
        return (min(cap, s + 1) if pred(n) else s,)
    reached, trace = run(g, 0, step, facts=facts)
    out = {}
    for e in ends:
        en = {'exit': g.exit, 'exc': g.exc_exit}[e]
        for st in reached.get(en.id, ()):
            out.setdefault(st[1], fmt_trace(trace(en, st)))
    return out


def ret_values(g, pred_state=None):
    return [n for n in g.nodes if n.kind == 'ret' and n.id in g.live]


def dominators(g):
    if getattr(g, '_dom', None) is not None:
        return g._dom
    order, seen = [], set()
    st = [(g.entry, iter(g.entry.succ))]
    seen.add(g.entry.id)
    while st:
        n, it = st[-1]
        for m, _ in it:
            if m.id not in seen:
                seen.add(m.id)
                st.append((m, iter(m.succ)))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    dom = {g.entry.id: 1 << g.entry.id}
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            d = None
            for p, _ in g.pred.get(n.id, ()):
                if p.id in dom:
                    d = dom[p.id] if d is None else d & dom[p.id]
            d = (d or 0) | 1 << n.id
            if dom.get(n.id) != d:
                dom[n.id] = d
                ch = True
    g._dom = dom
    return dom


def natural_loops(g):
    """list of (header node, body node-id set)"""
    if getattr(g, '_loops', None) is not None:
        return g._loops
    dom = dominators(g)
    bodies = {}
    for n in g.nodes:
        if n.id not in g.live:
            continue
        for m, l in n.succ:
            if dom[n.id] >> m.id & 1:
                b = bodies.setdefault(m.id, {m.id})
                todo = [n]
                while todo:
                    x = todo.pop()
                    if x.id in b:
                        continue
                    b.add(x.id)
                    todo.extend(p for p, _ in g.pred.get(x.id, ()))
    byid = {n.id: n for n in g.nodes}
    g._loops = [(byid[h], b) for h, b in bodies.items()]
    return g._loops


def loops_around(g, n):
    """loop branches of the natural loops containing n, innermost first"""
    ls = sorted([(len(b), h, b) for h, b in natural_loops(g) if n.id in b], key=lambda x: x[0])
    out = []
    for _, h, b in ls:
        seen, todo, br = set(), [h], None
        while todo:
            x = todo.pop(0)
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind == 'branch' and x.d.get('loop'):
                br = x
                break
            todo.extend(m for m, l in x.succ if m.id in b and l != 'exc')
        out.append((br or h, b))
    return out


# ------------------------------------------------------------------ canonical terms
WRAP_CTORS = ('std::type_index', 'std::basic_string', 'std::pair<', 'std::function', 'boost::signals2::slot', 'boost::any', 'std::basic_string_view', 'boost::function')


def canon(g, t, depth=0):
    """resolved term without node ids; value wrappers and pair constructions normalised"""
    if depth == 0:
        t = g.resolve(t)
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == 'call':
        q = short(t[1])
        args = tuple(canon(g, a, depth + 1) for a in t[3])
        if q == 'make_pair' or q == 'make_tuple':
            return ('pair',) + args
        return ('call', t[1], canon(g, t[2], depth + 1) if t[2] else None, args)
    if k == 'ctor':
        args = tuple(canon(g, a, depth + 1) for a in t[2])
        ty = t[1].replace('const ', '')
        if ty.startswith('std::pair<'):
            return ('pair',) + args if len(args) == 2 else (args[0] if args else ('pair',))
        if ty.startswith(WRAP_CTORS) and len(args) >= 1:
            return args[0]
        return ('ctor', ty, args)
    if k == 'init':
        args = tuple(canon(g, a, depth + 1) for a in t[1])
        if len(args) == 2:
            return ('pair',) + args
        return args[0] if len(args) == 1 else ('init', args)
    if k == 'deref':
        return canon(g, t[1], depth + 1)
    out = []
    for y in t:
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            out.append(canon(g, y, depth + 1))
        else:
            out.append(y)
    return tuple(out)


def parm_idx(g, t):
    """index of the root function's parameter this term is (through references), or None"""
    t = strip(t)
    if t and t[0] == 'var':
        i = g.vinfo.get(t[1], {})
        if i.get('kind') == 'parm' and 'idx' in i:
            return i['idx']
    return None


def parms_in(g, t):
    """indices of root parameters flowing into the term"""
    out = set()
    for s in g.sources(t):
        if s[0] == 'var':
            i = g.vinfo.get(s[1], {})
            if i.get('kind') == 'parm' and 'idx' in i:
                out.add(i['idx'])
    return out


def container_ops(g, q, names=None):
    """call nodes whose object is (rooted in) container field q"""
    return [n for n in g.nodes if n.id in g.live and n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], q)
            and (names is None or short(n.d['q']) in names)]


# ------------------------------------------------------------------ event languages
class Rx:
    """small regular-expression engine over single-character events (NFA simulation)"""
    def __init__(self, pat):
        self.eps, self.tr, self.n = {}, {}, 0
        self.pat, self.i = pat.replace(' ', ''), 0
        a, b = self.alt()
        if self.i != len(self.pat):
            raise ValueError(pat)
        self.s, self.f = a, b
        self.start = self.close({a})

    def new(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def alt(self):
        l = [self.cat()]
        while self.i < len(self.pat) and self.pat[self.i] == '|':
            self.i += 1
            l.append(self.cat())
        if len(l) == 1:
            return l[0]
        a, b = self.new(), self.new()
        for x, y in l:
            self.e(a, x)
            self.e(y, b)
        return a, b

    def cat(self):
        a = b = self.new()
        while self.i < len(self.pat) and self.pat[self.i] not in '|)':
            x, y = self.rep()
            self.e(b, x)
            b = y
        return a, b

    def rep(self):
        c = self.pat[self.i]
        self.i += 1
        if c == '(':
            x, y = self.alt()
            self.i += 1
        elif c == '[':
            j = self.pat.index(']', self.i)
            x, y = self.new(), self.new()
            self.tr.setdefault(x, []).append((self.pat[self.i:j], y))
            self.i = j + 1
        else:
            x, y = self.new(), self.new()
            self.tr.setdefault(x, []).append((c, y))
        while self.i < len(self.pat) and self.pat[self.i] in '*+?':
            o = self.pat[self.i]
            self.i += 1
            a, b = self.new(), self.new()
            self.e(a, x)
            self.e(y, b)
            if o in '*?':
                self.e(a, b)
            if o in '*+':
                self.e(y, x)
            x, y = a, b
        return x, y

    def close(self, st):
        todo, out = list(st), set(st)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def step(self, st, c):
        out = set()
        for x in st:
            for cs, y in self.tr.get(x, ()):
                if c in cs or cs == '.':
                    out.add(y)
        return self.close(out)

    def ok(self, st):
        return self.f in st


def words(g, classify, rx, ends=('exit',), edge=None, init_facts=(), facts=True, start=None, inject=None, endsym=None, keep=None, once=''):
    """check that the event word of every path is in the language.
    classify(node) -> None or string of event letters; edge(node, succ, label) -> letters or None.
    Returns list of (node, word-so-far, trace)."""
    R = Rx(rx) if isinstance(rx, str) else rx
    bad = {}

    def adv(cur, letters, n):
        st = cur
        for c in letters or '':
            if c in once:                       # a condition looked at again says nothing new
                if c in cur[1]:
                    continue
                cur = (cur[0], cur[1] | {c})
            if once:
                nx = R.step(cur[0], c)
                if not nx:
                    bad.setdefault((n.id, 'dead'), (n, st, letters))
                    return None
                cur = (nx, cur[1])
                continue
            nx = R.step(cur, c)
            if not nx:
                bad.setdefault((n.id, 'dead'), (n, st, letters))
                return None
            cur = nx
        return cur

    cl = {}
    with_facts = getattr(classify, 'with_facts', False)      # the event depends on the path: classify(node, facts)

    # only nodes from which a required end is reachable matter
    useful, todo = set(), [x for x in ({'exit': g.exit, 'exc': g.exc_exit}[e] for e in ends) if x is not None]
    useful |= {x.id for x in todo}
    while todo:
        for p, _ in g.pred.get(todo.pop().id, ()):
            if p.id not in useful:
                useful.add(p.id)
                todo.append(p)

    def step(n, s, fs):
        if n.id not in useful:
            return ()
        if with_facts:
            cl[n.id] = classify(n, fs)
        elif n.id not in cl:
            cl[n.id] = classify(n)
        r = adv(s, cl[n.id], n)
        return () if r is None else (r,)

    def ed(n, m, lab, s):
        return adv(s, edge(n, m, lab), n)
    reached, trace = run(g, (R.start, frozenset()) if once else R.start, step, ed if edge else None, facts=facts, init_facts=init_facts, start=start, inject=inject, keep=keep)
    out = []

    def word(tr, extra=''):
        w = ''
        for i, n in enumerate(tr):
            if i:
                labs = [l for m, l in tr[i - 1].succ if m is n]
                w += (edge(tr[i - 1], n, labs[0]) or '') if edge and labs else ''
            if i < len(tr) - 1:
                w += cl.get(n.id) or ''
        w += extra
        return w if len(w) < 60 else '..' + w[-56:]
    for (nid, _), (n, cur, letters) in bad.items():
        st = next((x for x in reached.get(nid, ()) if x[1] == cur), None) or next(iter(reached.get(nid, [None])), None)
        tr = trace(n, st) if st else []
        out.append((n, word(tr, letters), fmt_trace(tr)))
    for e in ends:
        en = {'exit': g.exit, 'exc': g.exc_exit}[e]
        if en is None:
            continue
        for st in reached.get(en.id, ()):
            q = st[1][0] if once else st[1]
            q = R.step(q, endsym[e]) if endsym else q
            if not q or not R.ok(q):
                tr = trace(en, st)
                out.append((en, word(tr, endsym[e] if endsym else ''), fmt_trace(tr)))
                break
    return out, reached


def lang(ctx, rule, inst, g, classify, rx, ends=('exit',), edge=None, init_facts=(), facts=True, legend='', need=True, inject=None, endsym=None, keep=None, once=''):
    """obligation: every path's event word matches rx"""
    bad, reached = words(g, classify, rx, ends, edge, init_facts, facts, inject=inject, endsym=endsym, keep=keep, once=once)
    if need and not any({'exit': g.exit, 'exc': g.exc_exit}[e] is not None and {'exit': g.exit, 'exc': g.exc_exit}[e].id in reached for e in ends) and not bad:
        ctx.bad(rule, inst, g.root.loc(), 'no path reaches the end')
        return False
    if not bad:
        ctx.good(rule, inst)
        return True
    n, w, tr = bad[0]
    ctx.bad(rule, inst, where(n) if n.line else g.root.loc(), 'a path has events "%s", required: %s%s' % (w, rx, (' where ' + legend) if legend else ''), tr)
    return False


def holds(g, n, pred, mf=None):
    """some fact true on every path to n satisfies pred(key, value)"""
    if getattr(g, '_mf', None) is None:
        g._mf = must_facts(g)
    return any(pred(k, v) for k, v in g._mf.get(n.id, ()))


def always(g, n, pred, init_facts=()):
    """on every (path-sensitive) way to n some fact satisfies pred(key, value); like holds() but correlates branches"""
    if getattr(g, '_ps', None) is None:
        g._ps = run(g, 0, lambda n, s, fs: (s,), init_facts=init_facts)[0]
    sts = g._ps.get(n.id, ())
    def tr(v):
        return bool(v[1]) if isinstance(v, tuple) and len(v) == 2 and v[0] == '=' and isinstance(v[1], int) and v[1] in (0, 1) else v
    return all(any(pred(k, tr(v)) for k, v in fs) for fs, _ in sts)


def edge_before(g, n, pred):
    """every path to n took some branch edge whose (key, value) satisfies pred"""
    F = Facts(g)

    def edge(x, m, lab, s):
        if not s and x.kind == 'branch' and lab in (True, False):
            key, pol = F.key(x.d['cond'])
            return bool(pred(key, lab == pol))
        return s
    reached, _ = run(g, False, lambda x, s, fs: (s,), edge)
    return all(s for _, s in reached.get(n.id, ()))


def loop_exits(g, n):
    """branches of the innermost loop around n that may leave it, with the label that stays"""
    ls = sorted([(len(b), h.id, b) for h, b in natural_loops(g) if n.id in b])
    if not ls:
        return []
    b = ls[0][2]
    out = []
    for x in g.nodes:
        if x.id in b and x.kind == 'branch' and any(m.id not in b for m, l in x.succ if l != 'exc'):
            out.append((x, next((l for m, l in x.succ if m.id in b and l != 'exc'), None)))
    return out


def fact_show(g, n):
    if getattr(g, '_mf', None) is None:
        g._mf = must_facts(g)
    return sorted('%s=%s' % (show(k), v) for k, v in g._mf.get(n.id, ()))


def pfact(g, idx, val):
    """initial fact: root parameter #idx equals constant val"""
    for uid, i in g.vinfo.items():
        if i.get('kind') == 'parm' and i.get('idx') == idx:
            return frozenset({(('var', uid, i.get('name', '')), ('=', val))})
    return frozenset()


def inject_fact(pred, term_of, val):
    """after each node satisfying pred, assume term_of(node) == val"""
    def f(n, fs):
        if pred(n):
            d = dict(fs)
            d[term_of(n)] = ('=', val)
            return frozenset(d.items())
        return fs
    return f


def is_write(n, q, val=None):
    """write to field q (optionally of the constant val)"""
    if n.kind != 'write' or fldq(n.d['lhs']) != q:
        return False
    if val is None:
        return True
    r = n.d.get('rhs')
    c = constval(r) if r is not None else None
    return c is not None and c == val


def obj_is(g, n, q):
    return n.kind == 'call' and n.d.get('obj') is not None and base_is(g, n.d['obj'], q)


def notifies(n, q):
    return n.kind == 'call' and short(n.d['q']) in ('notify_all', 'notify_one') and n.d.get('obj') is not None and fldq(n.d['obj']) == q


def resolved_is_write(g, n, q, val=None):
    if n.kind != 'write':
        return False
    l = n.d['lhs']
    if l[0] == 'var' and not g.vinfo.get(l[1], {}).get('t', '').endswith('&'):
        return False
    if fldq(g.resolve(l)) != q:
        return False
    if val is None:
        return True
    c = cval(g, n.d['rhs']) if n.d.get('rhs') is not None else None
    return c is not None and c == val


def enum_vals(ctx, q):
    e = ctx.P.enums.get(q)
    if not e:
        ctx.broken('enum %s not found' % q)
    return e


def callees_q(g):
    return {n.d['q'] for n in g.nodes if n.id in g.live and n.kind == 'call'}


def rv(n):
    """returned term of a ret node"""
    t = n.d.get('term')
    return t if t is not None else ('x', 'void')


def cval(g, t):
    """constant value of a term, through value wrappers"""
    t = g.resolve(t)
    for _ in range(5):
        if t and t[0] == 'ctor' and len(t[2]) == 1:
            t = t[2][0]
        elif t and t[0] == 'init' and len(t[1]) == 1:
            t = t[1][0]
        else:
            break
    if t and t[0] == 'ctor' and not t[2]:
        return 0
    if t and t[0] == 'init' and not t[1]:
        return 0
    if t and t[0] == 'null':
        return 0
    return constval(t)


def whole_range(g, b, cont):
    """branch b controls a loop over all elements of a container chosen by cont(term): range-for, or from the first to the last by iterator or index"""
    c = b.d['cond']
    if c[:2] == ('op', 'forr'):
        return any(cont(s) for s in list(g.sources(c[2])) + list(sub(g.resolve(c[2]))))
    srcs = list(g.sources(c))
    if not any(cont(s) for s in srcs):
        return False
    vs = [s for s in sub(c) if s[0] == 'var']
    ok = False
    for v in vs:
        ds = g.defs.get(v[1], [])
        for d in ds:
            d = strip(d)
            if constval(d) == 0 or any(y[0] == 'call' and short(y[1]) in ('begin', 'cbegin') for y in sub(d)):
                ok = True
    skip = any(s[0] == 'op' and s[1] in ('+', '-') and any(constval(y) not in (None, 1) for y in s[2:4]) for v in vs for d in g.defs.get(v[1], []) for s in sub(d))
    return ok and not skip


def each(ctx, rule, inst, g, calls, cont, loc, what):
    """every element of the container is handled by exactly one of the calls, whatever happens in the others"""
    if not calls:
        ctx.bad(rule, inst, loc, 'not done at all: ' + what)
        return
    ex = []
    for n in calls:
        ex += loop_exits(g, n)
    br = {b.id: st for b, st in ex}
    if len(br) != 1 or not all(whole_range(g, b, cont) for b, st in ex):
        ctx.bad(rule, inst, where(calls[0]), 'not done for all elements: ' + what)
        return
    lang(ctx, rule, inst, g, lambda n: 'C' if n in calls else None, '(jC)*k', edge=lambda n, m, lab: ('j' if lab == br[n.id] else 'k') if n.id in br and lab in (True, False) else None, legend='j/k next element / all done, C ' + what)


def own(ctx, g, n):
    """in the analysed function itself, or in a lambda or helper of it"""
    return n.fn is g.root or n.fn is not None and ctx.P.serves(n.fn, lambda h: h is g.root)
