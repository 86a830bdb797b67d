"""Event graphs: an interprocedural (inlined), exception-aware control-flow graph whose nodes are
resolved events (calls, constructions, writes, branches, scope-exit destructions, ...) with
symbolic access-path terms, plus worklist dataflow over it."""
from collections import deque
from .prog import walk

# ---------------------------------------------------------------------------------------- terms
# ('this', cls) ('var', uid, name) ('fld', base, q) ('glob', q) ('c', v) ('enum', q, v) ('s', str)
# ('null',) ('call', q, obj, args, nid) ('op', op, ...) ('deref', t) ('addr', t) ('idx', a, b)
# ('new', type, nid) ('lam', lamuid) ('fn', fid, q) ('init', args) ('ctor', type, args, nid)
# ('sizeof', t) ('x', desc)

NOFACT = ('x', '')


SCALARS = {'int', 'unsigned int', 'long', 'unsigned long', 'bool', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char', 'long long', 'unsigned long long', 'float', 'double', 'size_t'}


def sub(t):
    """all subterms of t, t first"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
            for y in x[1:]:
                if isinstance(y, tuple):
                    if y and isinstance(y[0], str):
                        st.append(y)
                    else:
                        st.extend(z for z in y if isinstance(z, tuple))


def short(q):
    return q.rsplit('::', 1)[-1]


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if depth > 6:
        return '..'
    d = depth + 1
    if k == 'this':
        return 'this'
    if k == 'var':
        return t[2] or '_'
    if k == 'fld':
        b = show(t[1], d)
        return (short(t[2])) if b == 'this' else b + '.' + short(t[2])
    if k == 'glob':
        return short(t[1])
    if k == 'c':
        return str(t[1])
    if k == 'enum':
        return short(t[1])
    if k == 's':
        return repr(t[1])
    if k == 'null':
        return 'nullptr'
    if k == 'call':
        o = (show(t[2], d) + '.') if t[2] and t[2][0] != 'this' else ''
        return o + short(t[1]) + '(' + ', '.join(show(a, d) for a in t[3]) + ')'
    if k == 'op':
        if len(t) == 4:
            return '(' + show(t[2], d) + ' ' + t[1] + ' ' + show(t[3], d) + ')'
        return t[1] + show(t[2], d)
    if k == 'deref':
        return '*' + show(t[1], d)
    if k == 'addr':
        return '&' + show(t[1], d)
    if k == 'idx':
        return show(t[1], d) + '[' + show(t[2], d) + ']'
    if k in ('init',):
        return '{' + ', '.join(show(a, d) for a in t[1]) + '}'
    if k == 'ctor':
        return short(t[1].split('<')[0]) + '{' + ', '.join(show(a, d) for a in t[2]) + '}'
    if k == 'fn':
        return short(t[2])
    if k == 'new':
        return 'new ' + t[1]
    if k == 'lam':
        return '[lambda]'
    return '<' + k + '>'


class Node:
    __slots__ = ('id', 'kind', 'd', 'succ', 'line', 'file', 'fn', 'stack')

    def __init__(s, i, kind, d, line, file, fn, stack):
        s.id = i
        s.kind = kind
        s.d = d
        s.succ = []
        s.line = line
        s.file = file
        s.fn = fn
        s.stack = stack

    def loc(s):
        return '%s:%s' % (s.file, s.line)

    def __repr__(s):
        return '<%d %s %s %s>' % (s.id, s.kind, {k: (show(v) if isinstance(v, tuple) else v) for k, v in s.d.items() if k not in ('args',)}, s.line)


class Frame:
    __slots__ = ('fn', 'this', 'vars', 'parent', 'env', 'retvar', 'retnode', 'scopes', 'stack', 'call_scope', 'asgn', 'isbool')

    def __init__(s, fn, this, env=None):
        s.fn = fn
        s.this = this
        s.vars = {}
        s.env = env
        s.retvar = None
        s.retnode = None
        s.asgn = None


class Scope:
    """lexical scope: live locals with destructors; parent scope + count at push"""
    __slots__ = ('parent', 'pidx', 'vars', 'tryctx', 'land', 'frame', 'isfn', 'excnode', 'ne')

    def __init__(s, parent, frame):
        s.parent = parent
        s.pidx = len(parent.vars) if parent else 0
        s.vars = []
        s.tryctx = None
        s.land = {}
        s.frame = frame
        s.isfn = False
        s.excnode = None
        s.ne = False


LOCK_TYPES = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<', 'std::shared_lock<',
              'boost::interprocess::scoped_lock<')

SYNC_HOF = {'std::for_each', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::count_if',
            'std::transform', 'std::sort', 'std::stable_sort', 'std::remove_if', 'std::generate', 'std::call_once', 'std::invoke',
            'std::accumulate', 'std::copy_if', 'std::partition', 'std::find_if_not', 'std::replace_if', 'std::apply', 'std::max_element', 'std::min_element',
            'std::visit', 'std::equal', 'std::lower_bound', 'std::upper_bound', 'std::adjacent_find', 'std::all_of', 'std::unique',
            'boost::for_each', 'boost::for_each_n', 'std::for_each_n', 'std::reduce', 'boost::transform'}
WAITS = {'std::condition_variable::wait', 'std::condition_variable::wait_for', 'std::condition_variable::wait_until',
         'boost::interprocess::interprocess_condition::wait', 'boost::interprocess::interprocess_condition::timed_wait',
         'std::condition_variable_any::wait', 'std::condition_variable_any::wait_for', 'std::condition_variable_any::wait_until'}

TRANSPARENT_FN = {'std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref', 'boost::ref', 'boost::move', 'boost::forward',
                  'std::move_if_noexcept', 'std::launder'}
SMART = ('std::unique_ptr<', 'std::shared_ptr<', 'boost::interprocess::offset_ptr<', 'boost::optional<', 'std::optional<', 'boost::shared_ptr<',
         'boost::interprocess::unique_ptr<', 'std::__shared_ptr<', 'std::__shared_ptr_access<', 'boost::interprocess::shared_ptr<')

PURE_PREFIX = ('fair::Logger', 'std::operator<<', 'std::basic_ostream', 'std::operator==', 'std::operator!=', 'std::operator+', 'std::to_string',
               'std::__cxx11::to_string', 'std::chrono', 'std::get', 'std::min', 'std::max', 'std::begin', 'std::end', 'std::size',
               'fair::mq::tools::ToString', 'strerror', '__errno_location', 'zmq_errno', 'zmq_strerror', 'std::make_pair', 'std::tie', 'std::make_tuple', 'std::strerror')


def is_pure(d):
    q = d.get('q') or ''
    if short(q) in ELEMENT and q.startswith(('std::vector', 'std::array', 'std::deque', 'std::list', 'std::__cxx11::basic_string', 'std::unique_ptr', 'std::shared_ptr')):
        return True
    return bool(d.get('const')) or q.startswith(PURE_PREFIX) or q in TRANSPARENT_FN


ELEMENT = {'operator[]', 'at', 'front', 'back', 'begin', 'end', 'data', 'get', 'operator*', 'operator->'}


SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def is_int(t):
    t = t.replace('const ', '').strip()
    return t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'long long', 'unsigned long long', 'size_t', 'std::size_t')


def whole(a, b):
    """the container X of a pair of terms begin(X), end(X)"""
    xs = []
    for t, names in ((a, ('begin', 'cbegin')), (b, ('end', 'cend'))):
        if t[0] != 'call' or short(t[1]) not in names:
            return None
        if t[2] is not None and not t[3]:
            xs.append(t[2])
        elif t[2] is None and len(t[3]) == 1:
            xs.append(t[3][0])
        else:
            return None
    return xs[0] if strip_ids(xs[0]) == strip_ids(xs[1]) else None


class GraphTooBig(Exception):
    pass


class Builder:
    def __init__(self, prog, inline=None, want_reads=None, max_nodes=60000, max_depth=12, devirt=True, exc=True, inline_dtors=True):
        self.P = prog
        self.inline = inline or (lambda fn: False)
        self.want_reads = want_reads
        self.max_nodes = max_nodes
        self.max_depth = max_depth
        self.devirt = devirt
        self.exc = exc
        self.inline_dtors = inline_dtors
        self.nodes = []
        self.defs = {}       # uid -> [rhs terms]
        self.fdefs = {}      # field term of a local object -> values
        self.vinfo = {}      # uid -> dict
        self.lams = {}       # lamuid -> (ast, frame)
        self.uid = 0
        self.cur = None
        self.scope = None
        self.frame = None
        self.fstack = []
        self.brk = []
        self.cont = []
        self.async_lams = []   # (lam fn, this term, node) stored/async lambdas
        self.tmp_dtors = None
        self.root = None
        self.loops = []

    # -- nodes
    def node(self, kind, line=0, **d):
        if len(self.nodes) >= self.max_nodes:
            raise GraphTooBig(self.root.q if self.root else '?')
        fr = self.frame
        n = Node(len(self.nodes), kind, d, line, fr.fn.rel() if fr else '', fr.fn if fr else None, tuple(f.fn.name for f in self.fstack))
        self.nodes.append(n)
        return n

    def link(self, a, b, label=None):
        if a is not None and b is not None:
            a.succ.append((b, label))

    def emit(self, kind, line=0, **d):
        n = self.node(kind, line, **d)
        self.attach(n)
        return n

    def attach(self, n):
        if self.cur is not None:
            for (p, lab) in self.cur:
                p.succ.append((n, lab))
            self.cur = [(n, None)]
        else:
            self.cur = [(n, None)] if n.kind == 'entry' else None
            if self.cur is None:
                n.d['dead'] = True

    def dead(self):
        return self.cur is None

    def newvar(self, name, typ='', kind='local', **kw):
        self.uid += 1
        self.vinfo[self.uid] = dict(name=name, t=typ, kind=kind, **kw)
        self.defs.setdefault(self.uid, [])
        return ('var', self.uid, name)

    # -- exceptions
    def push_scope(self):
        s = Scope(self.scope, self.frame)
        self.scope = s
        return s

    def pop_scope(self, emit=True):
        s = self.scope
        if emit and self.cur is not None:
            for (v, t, l) in reversed(s.vars):
                self.dtor(v, t, l)
        self.scope = s.parent

    def dtor(self, v, t, line):
        n = self.emit('dtor', line, var=v, t=t)
        if self.inline_dtors:
            self.call_dtor(v, t, line)
        return n

    def call_dtor(self, v, t, line):
        cls = t
        c = self.P.classes.get(cls)
        if not c:
            return
        for m in c['methods']:
            if m['n'].startswith('~'):
                f = self.P.fns.get(m['f'])
                if f and self.inline(f) and f not in [x.fn for x in self.fstack] and len(self.fstack) < self.max_depth:
                    self.inline_call(f, v, [], line, None)

    def landing(self, scope, idx, etype=None):
        """node reached when an exception leaves `scope` having `idx` live vars"""
        if scope is None:
            return self.exc_exit
        key = (idx, etype)
        n = scope.land.get(key)
        if n is not None:
            return n
        n = self.node('unwind', 0)
        scope.land[key] = n
        save, ssc = self.cur, self.scope
        self.cur = [(n, None)]
        self.scope = scope.parent   # dtors run outside
        # destructors
        for (v, t, l) in reversed(scope.vars[:idx]):
            if self.cur is None:
                break
            dn = self.node('dtor', l, var=v, t=t, unwinding=True)
            self.attach(dn)
            if self.inline_dtors:
                self.call_dtor(v, t, l)
        self.scope = ssc
        if self.cur is None:
            self.cur = save
            return n
        if scope.tryctx is not None:
            self.dispatch(scope, etype)
        elif scope.isfn and scope.ne:
            self.attach(self.term_node)
        elif scope.parent is None:
            self.attach(self.exc_exit)
        else:
            if scope.isfn:
                lv = self.node('leave', 0, fn=scope.frame.fn, exc=True)
                self.attach(lv)
            self.attach(self.landing(scope.parent, scope.pidx, etype))
        self.cur = save
        return n

    def dispatch(self, scope, etype):
        handlers, hnodes = scope.tryctx
        frm = self.cur
        caught_all = False
        for h, hn in zip(handlers, hnodes):
            ht = h['t']
            m = self.exc_match(etype, ht)
            if m is False:
                continue
            for (p, lab) in frm:
                p.succ.append((hn, ('catch', ht)))
            if ht == '...' or m is True:
                caught_all = True
                break
            if etype is None and ht == '...':
                caught_all = True
                break
        if not caught_all:
            tgt = self.landing(scope.parent, scope.pidx, etype) if scope.parent else self.exc_exit
            for (p, lab) in frm:
                p.succ.append((tgt, lab))

    STD_BASES = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::out_of_range': 'std::logic_error',
                 'std::invalid_argument': 'std::logic_error', 'std::system_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
                 'std::length_error': 'std::logic_error', 'std::bad_any_cast': 'std::bad_cast', 'std::bad_cast': 'std::exception'}

    def bases_of(self, t):
        out, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            if x in self.STD_BASES:
                todo.append(self.STD_BASES[x])
            c = self.P.classes.get(x)
            if c:
                todo.extend(c['bases'])
        return out

    def exc_match(self, etype, ht):
        if ht == '...':
            return True
        if etype is None:
            return None
        h = ht.replace('const ', '').replace('&', '').strip()
        e = etype.replace('const ', '').replace('&', '').strip()
        if e.startswith('~'):
            # caught as e and thrown on: e or something derived from it
            e = e[1:]
            if e == '...':
                return None
            return True if h in self.bases_of(e) else None if e in self.bases_of(h) else False if h in self.STD_BASES or h in self.P.classes else None
        bs = self.bases_of(e)
        if h in bs:
            return True
        if e in self.STD_BASES or e in self.P.classes or e == 'std::exception':
            return False
        return None

    def may_throw(self, n):
        if not self.exc or self.cur is None:
            return
        sc = self.scope
        n.succ.append((self.landing(sc, len(sc.vars)), 'exc'))

    # -- entry
    def build(self, fn, this=None):
        self.root = fn
        if this is None and fn.cls and not fn.static:
            this = ('this', fn.cls)
        fr = Frame(fn, this)
        if fn.kind == 'lambda' and fn.parent is not None:
            p = fn.parent
            while p is not None and p.kind == 'lambda' and p.parent is not None:
                p = p.parent
            if p.cls and not p.static:
                fr.this = ('this', p.cls)
        self.frame = fr
        self.fstack = [fr]
        self.exc_exit = self.node('excexit', fn.end)
        self.term_node = self.node('terminate', 0)
        self.exit = self.node('exit', fn.end)
        e = self.node('entry', fn.line)
        self.entry = e
        self.cur = [(e, None)]
        for i, p in enumerate(fn.params):
            fr.vars[p['d']] = self.newvar(p['n'], p['t'], 'parm', idx=i)
        fr.retvar = None
        self.body(fn, fr, self.exit)
        return Graph(self)

    def body(self, fn, fr, exitnode):
        sc = self.push_scope()
        sc.isfn = True
        sc.frame = fr
        sc.ne = bool(fn.ne) or fn.kind == 'dtor' and len(self.fstack) > 1
        save_b, save_c = self.brk, self.cont
        self.brk, self.cont = [], []
        fr.retnode = exitnode
        fr.asgn = assigned_vars(fn)
        sc.excnode = None
        if fn.kind == 'ctor':
            for i in fn.inits:
                if i.get('deleg'):
                    self.ev(i['e'])
                elif 'm' in i:
                    e = i.get('e')
                    if e is None:
                        continue
                    if fr.this is None:
                        continue
                    lhs = ('fld', fr.this, i['mq'])
                    rhs = self.ev(e, target=lhs)
                    self.fdefs.setdefault(lhs, []).append(rhs)
                    self.emit('write', i.get('l') or fn.line, lhs=lhs, rhs=rhs, op='init', written=i.get('w'))
                else:
                    self.ev(i['e'])
        self.stmt(fn.body)
        # fallthrough
        if self.cur is not None:
            self.pop_scope(True)
            self.attach(exitnode) if exitnode.kind != 'exit' else [p.succ.append((exitnode, l)) for p, l in self.cur]
            self.cur = None
        else:
            self.pop_scope(False)
        self.brk, self.cont = save_b, save_c

    # -- statements
    def stmts(self, l):
        for s in l:
            if s is None:
                continue
            self.stmt(s)

    def unwind_to(self, scope):
        """emit destructors for all scopes from current up to (not including) `scope`"""
        s = self.scope
        while s is not None and s is not scope:
            for (v, t, l) in reversed(s.vars):
                self.dtor(v, t, l)
            s = s.parent

    def stmt(self, s):
        if s is None or self.cur is None and s.get('k') not in ('case', 'default', 'block', 'switch'):
            return
        k = s.get('k')
        if k == 'block':
            self.push_scope()
            self.stmts(s['b'])
            self.pop_scope()
        elif k == 'decl':
            for v in s['v']:
                self.decl(v)
        elif k == 'if':
            self.push_scope()
            if s.get('init'):
                self.stmt(s['init'])
            if s.get('cvd'):
                self.stmt(s['cvd'])
            cv = s['c'].get('cv') if s.get('cx') else None
            if s.get('cx') and cv is not None:
                if cv:
                    self.stmt(s.get('then'))
                else:
                    self.stmt(s.get('else'))
            else:
                t, f = self.cond(s['c'])
                self.cur = t or None
                self.push_scope()
                self.stmt(s.get('then'))
                self.pop_scope()
                a = self.cur
                self.cur = f or None
                if s.get('else'):
                    self.push_scope()
                    self.stmt(s['else'])
                    self.pop_scope()
                self.merge(a)
            self.pop_scope()
        elif k in ('while', 'for', 'do', 'forr'):
            self.loop(s, k)
        elif k == 'switch':
            self.switch(s)
        elif k in ('case', 'default'):
            self.case_label(s)
            self.stmt(s.get('s'))
        elif k == 'break':
            if self.brk:
                sc, lst = self.brk[-1]
                self.unwind_to(sc)
                if self.cur is not None:
                    lst.extend(self.cur)
            self.cur = None
        elif k == 'continue':
            if self.cont:
                sc, lst = self.cont[-1]
                self.unwind_to(sc)
                if self.cur is not None:
                    lst.extend(self.cur)
            self.cur = None
        elif k == 'return':
            self.ret(s)
        elif k == 'try':
            self.tryst(s)
        elif k == 'null_stmt':
            pass
        elif k == 'goto':
            self.emit('goto', s.get('l', 0))
            self.cur = None
        elif k is not None and k.startswith('x:') and k.endswith('Stmt'):
            for c in s.get('a', []):
                self.stmt(c)
        else:
            save = self.tmp_dtors
            self.tmp_dtors = []
            if k == 'bin' and s.get('op') in ('&&', '||') or k == 'cond':
                t, f = self.cond(s) if k == 'bin' else (None, None)
                if k == 'bin':
                    self.cur = (t or []) + (f or []) or None
                else:
                    self.ev(s)
            else:
                self.ev(s, stmt=True)
            self.flush_tmps()
            self.tmp_dtors = save

    def flush_tmps(self):
        for (t, ty, l) in reversed(self.tmp_dtors):
            if self.cur is not None:
                self.emit('dtor', l, var=t, t=ty, tmp=True)
        self.tmp_dtors = []

    def merge(self, other):
        if self.cur is None:
            self.cur = other
        elif other is not None:
            self.cur = self.cur + other

    def decl(self, v):
        fr = self.frame
        line = v.get('l', 0)
        save = self.tmp_dtors
        self.tmp_dtors = []
        uid = self.newvar(v['n'], v['t'], 'slocal' if v.get('static') else 'local', ref=v.get('ref', False), line=line)
        fr.vars[v['d']] = uid
        rhs = None
        if v.get('init') is not None:
            rhs = self.ev(v['init'], target=uid)
        if self.cur is None:
            self.tmp_dtors = save
            return
        single = v['d'] not in (self.asgn_of(fr))
        if v.get('ref') and rhs is not None and rhs[0] != 'x':
            # reference: alias
            fr.vars[v['d']] = rhs
            uid = rhs
            self.emit('decl', line, var=None, rhs=rhs, t=v['t'], name=v['n'], ref=True)
        else:
            if rhs is not None:
                self.defs[uid[1]].append(rhs)
            if v.get('static') and rhs is not None and (not v['t'].startswith('const ') and not fr.fn.file.startswith('/usr') or any(x[0] in ('var', 'this') for x in sub(rhs))):
                # a static local keeps its value across calls: the initialiser is only one of its values
                rhs = ('x', 'static')
                self.defs[uid[1]].append(rhs)
            self.vinfo[uid[1]]['single'] = single
            self.emit('decl', line, var=uid, rhs=rhs, t=v['t'], name=v['n'])
        for i, b in enumerate(v.get('bind') or []):
            fr.vars[b['d']] = ('idx', uid, ('s', '#%d' % i))
            if rhs is not None and rhs[0] == 'deref' or (rhs and rhs[0] == 'var'):
                fr.vars[b['d']] = ('idx', rhs if v.get('ref') else uid, ('s', '#%d' % i))
        self.flush_tmps()
        self.tmp_dtors = save
        t = v['t']
        if not v.get('ref') and not v.get('static') and needs_dtor(t):
            self.scope.vars.append((uid, t, line))

    def asgn_of(self, fr):
        if fr.asgn is None:
            fr.asgn = assigned_vars(fr.fn)
        return fr.asgn

    def loop(self, s, k):
        line = s.get('l', 0)
        self.push_scope()
        outer = self.scope
        if s.get('init'):
            self.stmt(s['init'])
        rng = None
        if k == 'forr':
            rng = self.ev(s['range'])
        if self.cur is None:
            self.pop_scope(False)
            return
        head = self.emit('loop', line, loop=k)
        brk, cont = [], []
        self.brk.append((outer, brk))
        self.cont.append((outer, cont))
        if k == 'do':
            self.push_scope()
            self.stmt(s['b'])
            self.pop_scope()
            self.merge(cont or None)
            if self.cur is not None:
                t, f = self.cond(s['c'])
                for (p, l) in t:
                    p.succ.append((head, l))
                self.cur = f or None
        elif k == 'forr':
            b = self.emit('branch', line, cond=('op', 'forr', rng, ('c', head.id)), loop=True)
            f = [(b, False)]
            self.cur = [(b, True)]
            self.push_scope()
            v = s['var']
            el = ('deref', ('x', 'it%d' % head.id, rng))
            u = self.newvar(v['n'], v['t'], 'local', elem_of=rng, line=line)
            self.defs[u[1]].append(('op', 'elem', rng))
            self.frame.vars[v['d']] = u
            for i, bd in enumerate(v.get('bind') or []):
                self.frame.vars[bd['d']] = ('idx', u, ('s', '#%d' % i))
            self.emit('decl', line, var=u, rhs=('op', 'elem', rng), t=v['t'], name=v['n'], elem=True)
            self.stmt(s['b'])
            self.pop_scope()
            self.merge(cont or None)
            if self.cur is not None:
                for (p, l) in self.cur:
                    p.succ.append((head, l))
            self.cur = f
        else:
            self.push_scope()
            if s.get('cvd'):
                self.stmt(s['cvd'])
            if s.get('c'):
                t, f = self.cond(s['c'])
            else:
                t, f = self.cur, []
            self.cur = t or None
            self.push_scope()
            self.stmt(s['b'])
            self.pop_scope()
            self.merge(cont or None)
            if self.cur is not None and s.get('inc'):
                self.ev(s['inc'], stmt=True)
            if self.cur is not None:
                for (p, l) in self.cur:
                    p.succ.append((head, l))
            self.cur = f or None
            self.pop_scope()
        self.brk.pop()
        self.cont.pop()
        self.merge(brk or None)
        self.pop_scope()

    def switch(self, s):
        line = s.get('l', 0)
        self.push_scope()
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cvd'):
            self.stmt(s['cvd'])
        c = self.ev(s['c'])
        if self.cur is None:
            self.pop_scope(False)
            return
        n = self.emit('switch', line, cond=c)
        brk = []
        self.brk.append((self.scope, brk))
        ctx = {'node': n, 'vals': [], 'default': False}
        if not hasattr(self, 'sw'):
            self.sw = []
        self.sw.append(ctx)
        self.cur = None
        self.push_scope()
        b = s['b']
        self.stmts(b['b'] if b.get('k') == 'block' else [b])
        self.pop_scope()
        self.sw.pop()
        if not ctx['default']:
            self.merge([(n, ('default', tuple(ctx['vals'])))])
        else:
            # patch the default label with the list of values
            for i, (m, lab) in enumerate(n.succ):
                if isinstance(lab, tuple) and lab[0] == 'default':
                    n.succ[i] = (m, ('default', tuple(ctx['vals'])))
        n.d['vals'] = tuple(ctx['vals'])
        self.brk.pop()
        self.merge(brk or None)
        self.pop_scope()

    def case_label(self, s):
        ctx = self.sw[-1]
        if s['k'] == 'case':
            v = s['v'].get('cv')
            ctx['vals'].append(v)
            lab = ('case', v)
        else:
            ctx['default'] = True
            lab = ('default', ())
        j = self.node('nop', s.get('l', 0), case=lab)
        if self.cur is not None:
            for (p, l) in self.cur:
                p.succ.append((j, l))
        ctx['node'].succ.append((j, lab))
        self.cur = [(j, None)]

    def ret(self, s):
        fr = self.frame
        line = s.get('l', 0)
        save = self.tmp_dtors
        self.tmp_dtors = []
        t = None
        e = s.get('e')
        if e is not None:
            if fr.retvar is not None:
                if self.is_boolish(e):
                    tt, ff = self.cond(e)
                    outs = []
                    for br, val in ((tt, 1), (ff, 0)):
                        self.cur = br or None
                        if self.cur is not None:
                            self.emit('write', line, lhs=fr.retvar, rhs=('c', val), op='=', ret=True)
                            outs += self.cur
                    self.defs[fr.retvar[1]].append(('op', 'boolexpr', self.pure_term(e)))
                    self.cur = outs or None
                else:
                    t = self.ev(e)
                    self.defs[fr.retvar[1]].append(t)
                    if self.cur is not None:
                        self.emit('write', line, lhs=fr.retvar, rhs=t, op='=', ret=True)
            elif len(self.fstack) == 1 and self.is_boolish(e):
                tt, ff = self.cond(e)
                self.cur = None
                outs = []
                for br, val in ((tt, 1), (ff, 0)):
                    self.cur = br or None
                    if self.cur is not None:
                        self.flush_tmps()
                        self.emit('ret', line, term=('c', val))
                        self.unwind_to(self.func_scope_parent())
                        if self.cur is not None:
                            outs += self.cur
                for (p, l) in outs:
                    p.succ.append((fr.retnode, l))
                self.cur = None
                self.tmp_dtors = save
                return
            else:
                t = self.ev(e)
        if self.cur is not None:
            self.flush_tmps()
            if len(self.fstack) == 1:
                self.emit('ret', line, term=t)
            self.unwind_to(self.func_scope_parent())
            if self.cur is not None:
                for (p, l) in self.cur:
                    p.succ.append((fr.retnode, l))
        self.tmp_dtors = save
        self.cur = None

    def func_scope_parent(self):
        s = self.scope
        while s is not None and not (s.isfn and s.frame is self.frame):
            s = s.parent
        return s.parent if s is not None else None

    def is_boolish(self, e):
        k = e.get('k')
        if e.get('cv') is not None:
            return False
        if k == 'bin' and e.get('op') in ('&&', '||'):
            return True
        if k == 'un' and e.get('op') == '!':
            return True
        if k == 'bin' and e.get('op') in ('==', '!=', '<', '>', '<=', '>=') and e.get('t') == 'bool':
            return True
        return False

    def tryst(self, s):
        hs = s['h']
        sc = self.push_scope()
        hnodes = [self.node('catch', h.get('l', 0), t=h['t']) for h in hs]
        sc.tryctx = (hs, hnodes)
        self.push_scope()
        self.stmt(s['b'])
        self.pop_scope()
        self.pop_scope()
        out = self.cur
        for h, hn in zip(hs, hnodes):
            self.cur = [(hn, None)]
            self.push_scope()
            if h.get('var'):
                v = h['var']
                u = self.newvar(v['n'], v['t'], 'local')
                self.frame.vars[v['d']] = u
            self.handling = getattr(self, 'handling', []) + [h['t']]
            self.stmt(h['b'])
            self.handling = self.handling[:-1]
            self.pop_scope()
            if self.cur is not None:
                out = (out or []) + self.cur
        self.cur = out

    # -- conditions: returns (true edges, false edges) as lists of (node, label)
    def cond(self, e):
        if self.cur is None:
            return [], []
        k = e.get('k')
        if e.get('cv') is not None and k not in ('ref',) and not any(x.get('k') == 'call' for x in walk(e)):
            if e['cv']:
                return self.cur, []
            return [], self.cur
        if k == 'un' and e.get('op') == '!':
            t, f = self.cond(e['e'])
            return f, t
        x = self.bool_test(e)
        if x is not None:
            t, f = self.cond(x[0])
            return (t, f) if x[1] else (f, t)
        if k == 'bin' and e.get('op') == '&&':
            t, f = self.cond(e['a'])
            self.cur = t or None
            if self.cur is None:
                return [], f
            t2, f2 = self.cond(e['b'])
            return t2, f + f2
        if k == 'bin' and e.get('op') == '||':
            t, f = self.cond(e['a'])
            self.cur = f or None
            if self.cur is None:
                return t, []
            t2, f2 = self.cond(e['b'])
            return t + t2, f2
        c = self.ev(e)
        if self.cur is None:
            return [], []
        b = self.emit('branch', e.get('l', 0), cond=c)
        return [(b, True)], [(b, False)]

    def bool_test(self, e):
        """(x, want) when e compares the bool x with a constant: x == false"""
        if e.get('k') != 'bin' or e.get('op') not in ('==', '!='):
            return None
        for a, b in ((e['a'], e['b']), (e['b'], e['a'])):
            v = b.get('cv')
            if v is None or isinstance(v, str) or a.get('cv') is not None:
                continue
            while a.get('k') in ('cast', 'paren') and isinstance(a.get('e'), dict) and not self.bool_typed(a) and is_int(a.get('t') or ''):
                a = a['e']          # a bool converted to a number
            if v in (0, 1) and (self.bool_typed(b) or is_int(b.get('t') or '')) and self.bool_typed(a):
                return a, bool(int(v)) == (e['op'] == '==')
        return None

    @staticmethod
    def bool_typed(e):
        while e.get('k') in ('cast', 'paren') and isinstance(e.get('e'), dict) and (e.get('t') or '') in ('int', ''):
            e = e['e']
        return (e.get('t') or '').replace('const ', '').strip() in ('bool', '_Bool')

    def pure_term(self, e):
        """a term for a boolean expression, for display/slicing only (no events)"""
        save = (self.cur, self.nodes)
        n0 = len(self.nodes)
        return ('x', 'bool')

    # -- expressions
    def lookup(self, d):
        fr = self.frame
        seen = 0
        while fr is not None and seen < 50:
            if d in fr.vars:
                return fr.vars[d]
            fr = fr.env
            seen += 1
        return None

    def this_term(self):
        fr = self.frame
        while fr is not None:
            if fr.this is not None:
                return fr.this
            fr = fr.env
        return ('this', '?')

    def ev(self, e, stmt=False, target=None):
        if e is None:
            return ('x', 'none')
        if self.cur is None:
            return ('x', 'dead')
        k = e.get('k')
        line = e.get('l', 0)
        if stmt and k == 'un' and e.get('op') in ('p++', 'p--'):
            e = dict(e, op=e['op'][1:])  # value not used
        if k == 'ref':
            dk = e.get('dk')
            if dk == 'enum':
                return ('enum', e['q'], e.get('cv'))
            if dk == 'fn':
                return ('fn', e.get('f'), e.get('q'))
            if dk == 'global':
                if e.get('cv') is not None:
                    return ('enum', e['q'], e['cv'])
                t = ('glob', e['q'])
                if self.want_reads and self.want_reads(e['q']):
                    self.emit('acc', line, term=t, q=e['q'])
                return t
            t = self.lookup(e.get('d'))
            if t is None:
                t = self.newvar(e['n'], e.get('t', ''), 'captured')
                self.frame.vars[e['d']] = t
            return t
        if k in ('int', 'bool'):
            v = e.get('cv')
            if v is None:
                v = e.get('v')
            return ('c', int(v) if v is not None else e.get('cvs'))
        if k == 'float':
            return ('c', e.get('v'))
        if k == 'str':
            return ('s', e.get('v', ''))
        if k == 'null':
            return ('null',)
        if k == 'this':
            return self.this_term()
        if k == 'mem':
            return self.mem(e)
        if k == 'call':
            return self.call(e, stmt)
        if k == 'ctor':
            return self.ctor(e, target, stmt)
        if k == 'new':
            args = ()
            i = None
            if e.get('init'):
                i = self.ev(e['init'], target=('x', 'new'))
                args = (i,)
            place = tuple(self.ev(a) for a in e.get('pl', []))
            args += place
            if e.get('sz'):
                args += (self.ev(e['sz']),)
            if self.cur is None:
                return ('x', 'dead')
            n = self.emit('new', line, t=e['at'], args=args, arr=e.get('arr', False), init=i, place=place)
            self.may_throw(n)
            return ('new', e['at'], n.id)
        if k == 'delete':
            a = self.ev(e['e'])
            self.emit('delete', line, term=a, arr=e.get('arr', False))
            return ('x', 'void')
        if k == 'lambda':
            self.uid += 1
            lid = self.uid
            for c in e.get('caps', []):
                if c.get('initcap'):
                    if c.get('init') is not None:
                        iv = self.ev(c['init'])
                    else:
                        iv = ('x', 'cap')
                    u = self.newvar(c['n'], c.get('t', ''), 'local')
                    self.defs[u[1]].append(iv)
                    self.frame.vars[c['d']] = iv if iv[0] in ('var', 'lam', 'fld', 'this') else u
            self.lams[lid] = (e, self.frame)
            if self.cur is not None:
                self.emit('lamdef', line, lam=('lam', lid), fn=e.get('f') or next((i for i in e.get('insts', []) if i in self.P.fns and self.P.fns[i].body), None), caps=[(c.get('by'), c.get('n')) for c in e.get('caps', [])])
            return ('lam', lid)
        if k == 'bin':
            return self.binop(e)
        if k == 'un':
            return self.unop(e)
        if k == 'cond':
            t, f = self.cond(e['c'])
            u = self.newvar('', e.get('t', ''), 'tmp')
            out = []
            for br, x in ((t, e['a']), (f, e['b'])):
                self.cur = br or None
                if self.cur is not None:
                    v = self.ev(x)
                    if self.cur is not None:
                        self.defs[u[1]].append(v)
                        self.emit('write', line, lhs=u, rhs=v, op='=')
                        out += self.cur
            self.cur = out or None
            return u
        if k == 'cast':
            t = self.ev(e['e'])
            if e.get('t') == 'bool' and False:
                return t
            return t
        if k == 'list':
            args = tuple(self.ev(a) for a in e.get('a', []))
            fl = e.get('fields')
            return ('init', args, tuple(fl)) if fl else ('init', args)
        if k == 'idx':
            a = self.ev(e['a'])
            b = self.ev(e['b'])
            return ('idx', a, b)
        if k == 'throw':
            return self.throw(e)
        if k == 'sizeof':
            if e.get('al') and e.get('v') is not None:
                return ('c', e['v'])
            return ('sizeof', e.get('at'), e.get('v'))
        if k == 'zero':
            return ('c', 0)
        if k == 'typeid':
            return ('x', 'typeid:' + str(e.get('at')))
        if k == 'pdtor':
            return ('x', 'pdtor')
        if k in ('if', 'for', 'while', 'do', 'forr', 'block', 'decl', 'return', 'switch', 'try'):
            self.stmt(e)
            return ('x', 'stmt')
        ts = [self.ev(a) for a in e.get('a', []) if isinstance(a, dict)]
        return ('x', k or '?') + ((tuple(ts),) if ts else ())

    def mem(self, e, quiet=False):
        if e.get('dk') == 'global':
            if e.get('cv') is not None:
                return ('enum', e['q'], e['cv'])
            t = ('glob', e['q'])
            if self.want_reads and self.want_reads(e['q']):
                self.emit('acc', e.get('l', 0), term=t, q=e['q'])
            return t
        if e.get('dk') == 'fn':
            return ('fn', e.get('f'), e.get('q'))
        b = self.ev(e['b'])
        while b[0] in ('deref', 'addr'):
            b = b[1]
        t = ('fld', b, e['q'])
        if self.want_reads and self.cur is not None and self.want_reads(e['q']):
            self.emit('acc', e.get('l', 0), term=t, q=e['q'])
        return t

    ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}

    def binop(self, e):
        op = e['op']
        line = e.get('l', 0)
        if op in self.ASSIGN:
            rhs = self.ev(e['b'])
            lhs = self.ev(e['a'])
            if self.cur is None:
                return ('x', 'dead')
            if op != '=':
                rhs = ('op', op[:-1], lhs, rhs)
            self.write(lhs, rhs, op, line)
            return lhs
        if op in ('&&', '||'):
            u = self.newvar('', 'bool', 'tmp')
            t, f = self.cond(e)
            out = []
            for br, v in ((t, 1), (f, 0)):
                self.cur = br or None
                if self.cur is not None:
                    self.emit('write', line, lhs=u, rhs=('c', v), op='=')
                    out += self.cur
            self.cur = out or None
            return u
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        x = self.bool_test(e)
        if x is not None:
            v = self.ev(x[0])
            return v if x[1] else ('op', '!', v)
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        if op in SWAP and a[0] in ('c', 'enum', 's', 'null') and b[0] not in ('c', 'enum', 's', 'null'):
            op, a, b = SWAP[op], b, a       # the constant to the right
        if e.get('cv') is not None and not any(x.get('k') in ('call', 'ref', 'mem') for x in walk([e['a'], e['b']])):
            return ('c', e['cv'])
        return ('op', op, a, b)

    def write(self, lhs, rhs, op, line, **kw):
        if lhs[0] == 'var':
            self.defs.setdefault(lhs[1], []).append(rhs)
        elif lhs[0] == 'fld':
            self.fdefs.setdefault(lhs, []).append(rhs)
        return self.emit('write', line, lhs=lhs, rhs=rhs, op=op, **kw)

    def unop(self, e):
        op = e['op']
        line = e.get('l', 0)
        if op == '!':
            v = self.ev(e['e'])
            return ('op', '!', v)
        v = self.ev(e['e'])
        if self.cur is None:
            return ('x', 'dead')
        if op in ('++', '--', 'p++', 'p--'):
            old = None
            if op[0] == 'p':
                # the value before
                old = self.newvar('', e.get('t') or '', 'tmp')
                self.write(old, v, '=', line)
            self.write(v, ('op', '+' if '++' in op else '-', v, ('c', 1)), op[-2:], line)
            return old if old is not None else v
        if op == '*':
            if v[0] == 'addr':
                return v[1]
            return ('deref', v)
        if op == '&':
            if v[0] == 'deref':
                return v[1]
            return ('addr', v)
        if e.get('cv') is not None:
            return ('c', e['cv'])
        if op == '+':
            return v
        return ('op', op, v)

    def throw(self, e):
        t = None
        if e.get('e'):
            t = self.ev(e['e'])
        if self.cur is None:
            return ('x', 'dead')
        n = self.emit('throw', e.get('l', 0), t=e.get('tt'), term=t, re=e.get('re', False))
        sc = self.scope
        tt = e.get('tt')
        if tt in (None, 'void') and getattr(self, 'handling', None):
            tt = '~' + self.handling[-1]
        n.succ.append((self.landing(sc, len(sc.vars), tt), 'exc'))
        self.cur = None
        return ('x', 'throw')

    def ctor(self, e, target=None, stmt=False):
        t = e.get('t', '')
        line = e.get('l', 0)
        cm = e.get('cm')
        if cm in ('copy', 'move') and len(e.get('a', [])) >= 1 and not t.startswith(LOCK_TYPES):
            f = self.P.fns.get(e.get('f'))
            if f is None or not self.inline(f) or target is None:
                a = self.ev(e['a'][0])
                if cm == 'move' and self.cur is not None:
                    self.emit('moved', line, term=a, t=t, into=target)
                elif self.cur is not None:
                    n = self.emit('copied', line, term=a, t=t, into=target)
                return a
        args = tuple(self.ev(a) for a in e.get('a', []))
        if self.cur is None:
            return ('x', 'dead')
        # single-argument conversions of std::function / string_view / etc. from lambda stay visible as args
        n = self.emit('ctor', line, t=t, args=args, target=target, q=e.get('q'), fid=e.get('f'), cm=cm)
        if not e.get('ne'):
            self.may_throw(n)
        f = self.P.fns.get(e.get('f'))
        if f and self.inline(f) and f not in [x.fn for x in self.fstack] and len(self.fstack) < self.max_depth:
            this = target
            if this is None or this[0] == 'x':
                this = self.newvar('', t, 'tmp')
            self.inline_call(f, this, args, line, n)
            if target is None:
                if stmt or t.startswith(LOCK_TYPES):
                    self.tmp_dtors is not None and self.tmp_dtors.append((this, t, line))
                return this
        if target is None and self.tmp_dtors is not None and (t.startswith(LOCK_TYPES) or (stmt and needs_dtor(t)) or t.startswith('fair::mq::') and needs_dtor(t) and self.has_user_dtor(t)):
            u = self.newvar('', t, 'tmp')
            n.d['target'] = u
            self.tmp_dtors.append((u, t, line))
            return u
        if t.startswith('std::function<') and len(args) == 1:
            return args[0]
        if (t.startswith('std::unique_ptr<') or t.startswith('std::shared_ptr<')) and len(args) >= 1:
            return args[0]
        if len(args) == 1 and (t.startswith('std::basic_string<') or t.startswith('std::__cxx11::basic_string<')):
            return args[0]
        return ('ctor', t, args, n.id)

    def out_params(self, e, fid, args, line):
        """scalar locals handed to an external function by address or non-const reference may change"""
        f = self.P.fns.get(fid)
        if f is not None and f.body:
            return
        pt = e.get('pt', [])
        for i, a in enumerate(args):
            p = (pt[i] if i < len(pt) else '').replace('__restrict', '').strip()
            if p.startswith('const ') and p.count('*') < 2 or p.endswith('const &') or not p.endswith(('*', '&')):
                continue
            v = a[1] if a and a[0] == 'addr' and isinstance(a[1], tuple) else (a if p.endswith('&') and not p.endswith('&&') else None)
            if not v or v[0] != 'var' or v[1] not in self.vinfo:
                continue
            t = self.vinfo[v[1]].get('t', '').replace('const ', '')
            if t.endswith('*') or t in SCALARS:
                self.defs[v[1]].append(('x', 'out'))
                self.emit('write', line, lhs=v, rhs=('x', 'out'), op='=')

    def has_user_dtor(self, t):
        c = self.P.classes.get(t)
        return bool(c and any(m['n'].startswith('~') for m in c['methods']))

    # -- calls
    def call(self, e, stmt=False):
        q = e.get('q')
        line = e.get('l', 0)
        op = e.get('op')
        fid = e.get('f')
        args_e = e.get('a', [])
        # transparent library wrappers
        if q in TRANSPARENT_FN and len(args_e) == 1:
            t = self.ev(args_e[0])
            if q in ('std::move', 'boost::move') and self.cur is not None:
                self.emit('move', line, term=t)
            return t
        obj = None
        if e.get('o') is not None:
            obj = self.ev(e['o'])
        if self.cur is None:
            return ('x', 'dead')
        callee_t = None
        if e.get('callee') is not None:
            callee_t = self.ev(e['callee'])
        oc = e.get('cls', '')
        name = short(q) if q else ''
        if q and '::operator ' in q:
            name = q[q.rindex('::operator ') + 2:]
        if obj is not None and oc.startswith(SMART):
            if op == '->' or name in ('get',) and not args_e:
                return obj
            if op == '*' and not args_e:
                return ('deref', obj) if obj[0] != 'addr' else obj[1]
            if name == 'operator bool':
                return obj
        if obj is not None and op == '->':
            return obj
        if obj is not None and op == '*' and not args_e:
            return ('deref', obj)
        if q in ('std::operator==', 'std::operator!=', 'boost::interprocess::operator==', 'boost::interprocess::operator!=') and len(args_e) == 2 and obj is None:
            a, b = self.ev(args_e[0]), self.ev(args_e[1])
            if any('unique_ptr<' in p or 'shared_ptr<' in p or 'nullptr_t' in p or 'offset_ptr' in p for p in e.get('pt', [])):
                return ('op', '==' if name.endswith('==') else '!=', a, b)
            args = (a, b)
        else:
            args = None
        atomic = oc.startswith(('std::atomic<', 'std::__atomic_base<', 'std::atomic_bool', 'std::__atomic_float'))
        if atomic and obj is not None and (name.startswith('operator ') and not args_e or name == 'load'):
            n = self.emit('aload', line, term=obj)
            return obj
        if args is None:
            args = tuple(self.ev(a) for a in args_e)
        if self.cur is None:
            return ('x', 'dead')
        # equality on comparable library types stays a term with an event
        d = dict(q=q or '', fid=fid, obj=obj, args=args, virt=e.get('virt', False), ne=e.get('ne', False), op=op, pt=e.get('pt', []),
                 const=e.get('const', False), cls=oc, callee=callee_t, t=e.get('t', ''), ta=e.get('ta', ''), stmt=stmt, mac=e.get('mac'))
        n = self.emit('call', line, **d)
        term = ('call', q or '', obj, args, n.id)
        n.d['term'] = term
        self.out_params(e, fid, args, line)
        if e.get('noret') or q in ('std::terminate', 'std::abort', 'exit', 'abort', '_exit', 'std::exit'):
            n.succ.append((self.term_node, None))
            self.cur = None
            return ('x', 'noret')
        if not e.get('ne'):
            self.may_throw(n)
        # class-type assignment
        if op in self.ASSIGN and obj is not None:
            rhs = args[0] if args else ('x', '')
            if op != '=':
                rhs = ('op', op[:-1], obj, rhs)
            f = self.target_fn(e, obj)
            if f is not None and self.can_inline(f):
                self.inline_call(f, obj, args, line, n, args_e)
            else:
                self.write(obj, rhs, op, line, cls=oc)
            return obj
        if op in ('++', '--') and obj is not None:
            self.write(obj, ('op', op[0], obj, ('c', 1)), op, line, cls=oc)
            return obj
        if atomic and obj is not None and name in ('store', 'exchange', 'fetch_add', 'fetch_sub', 'compare_exchange_strong', 'compare_exchange_weak'):
            rhs = args[0] if args else ('x', '')
            if name == 'fetch_add':
                rhs = ('op', '+', obj, rhs)
            elif name == 'fetch_sub':
                rhs = ('op', '-', obj, rhs)
            elif name.startswith('compare'):
                rhs = args[1] if len(args) > 1 else rhs
            self.write(obj, rhs, name, line, cls=oc)
            return term
        # callable terms
        lt = None
        if callee_t is not None:
            lt = self.find_lam(callee_t)
        elif op == '()' and obj is not None:
            lt = self.find_lam(obj)
        if lt is not None:
            r = self.call_lam(lt, args, line, n)
            if r is not None:
                return r
            return term
        # synchronous higher-order library calls
        lam_args = [a for a in (self.find_lam(x) for x in args) if a is not None]
        if lam_args and (q in SYNC_HOF or q in WAITS):
            iswait = q in WAITS
            for la in lam_args:
                if iswait:
                    # predicate evaluated with the lock held; on return it is true (wait) or unknown
                    self.emit('waitpred', line, wait=n)
                    r = self.call_lam(la, (), line, n, markers=True)
                    if short(q) != 'wait' and r is not None:
                        term = r
                    elif r is not None and self.cur is not None:
                        b = self.emit('branch', line, cond=r, waitpred=True)
                        b.succ.append((n, False))
                        self.cur = [(b, True)]
                elif short(q) in ('any_of', 'all_of', 'none_of'):
                    hit = short(q) != 'all_of'
                    res = self.newvar('ret:' + short(q), 'bool', 'ret')
                    h = self.emit('loop', line, loop='hof', q=q)
                    b = self.emit('branch', line, cond=('op', 'hof', ('c', h.id)), loop=True)
                    outs = []
                    after = [(b, False)]
                    self.cur = [(b, True)]
                    r = self.call_lam(la, args, line, n, hof=True)
                    if self.cur is not None:
                        rb = self.emit('branch', line, cond=r if r is not None else ('x', 'hofres'))
                        rb.succ.append((h, not hit))
                        self.cur = [(rb, hit)]
                        self.emit('write', line, lhs=res, rhs=('c', 1 if short(q) == 'any_of' else 0), op='=', ret=True)
                        outs += self.cur
                    self.cur = after
                    self.emit('write', line, lhs=res, rhs=('c', 0 if short(q) == 'any_of' else 1), op='=', ret=True)
                    self.cur += outs
                    self.defs[res[1]].append(('op', 'boolexpr', term))
                    return res
                elif short(q) in ('visit', 'invoke', 'apply'):
                    # exactly one call
                    r = self.call_lam(la, tuple(args[1:]) if short(q) != 'apply' else (), line, n, hof=short(q) == 'apply')
                    if r is not None:
                        term = r
                else:
                    rng = whole(args[0], args[1]) if short(q) == 'for_each' and len(args) == 3 else None
                    h = self.emit('loop', line, loop='hof' if rng is None else 'forr', q=q)
                    b = self.emit('branch', line, cond=('op', 'hof', ('c', h.id)) if rng is None else ('op', 'forr', rng, ('c', h.id)), loop=True)
                    after = [(b, False)]
                    self.cur = [(b, True)]
                    if rng is not None:
                        # a loop over the whole container
                        lf = [self.P.fns[i] for i in ([self.lams[la[1]][0]['f']] if 'f' in self.lams[la[1]][0] else self.lams[la[1]][0].get('insts', [])) if i in self.P.fns]
                        u = self.newvar('element', lf[0].params[0]['t'] if lf and lf[0].params else '', 'local', elem_of=rng, line=line)
                        self.defs[u[1]].append(('op', 'elem', rng))
                        self.emit('decl', line, var=u, rhs=('op', 'elem', rng), t='', name='element', elem=True)
                        self.call_lam(la, (u,), line, n)
                    else:
                        self.call_lam(la, args, line, n, hof=True)
                    if self.cur is not None:
                        for (p, l) in self.cur:
                            p.succ.append((h, l))
                    self.cur = after
            return term
        f = self.target_fn(e, obj)
        if f is not None and self.can_inline(f):
            # what it throws comes out of its body
            n.succ = [x for x in n.succ if x[1] != 'exc']
            r = self.inline_call(f, obj, args, line, n, args_e)
            return r
        for la in lam_args:
            self.async_lams.append((la, n))
        return term

    def target_fn(self, e, obj):
        fid = e.get('f')
        f = self.P.fns.get(fid)
        if e.get('virt') and not e.get('qualified'):
            # devirtualise: `this` of the root class, else unique overrider
            ov = self.all_over(fid)
            if obj is not None and obj[0] == 'this' and obj[1]:
                m = self.final_override(obj[1], fid)
                if m is not None:
                    f2 = self.P.fns.get(m)
                    # only if no further derived class in the program overrides it
                    return f2
            if not ov:
                return f
            if f is None and len(ov) == 1 and self.devirt:
                return ov[0]
            return None
        return f

    def all_over(self, fid):
        out, todo = [], [fid]
        while todo:
            x = todo.pop()
            for g in self.P.overriders.get(x, []):
                if g not in out:
                    out.append(g)
                    todo.append(g.id)
        return out

    def final_override(self, cls, fid):
        """method id that `fid` resolves to in class `cls` (declared in cls or the nearest base)"""
        c = self.P.classes.get(cls)
        seen = set()
        while c is not None and c['t'] not in seen:
            seen.add(c['t'])
            for m in c['methods']:
                if m['f'] == fid:
                    return fid
                if fid in (m.get('ov') or []):
                    return m['f']
            nb = None
            for b in c['bases']:
                if b in self.P.classes:
                    nb = self.P.classes[b]
                    break
            c = nb
        return None

    def can_inline(self, f):
        return self.inline(f) and len(self.fstack) < self.max_depth and all(x.fn is not f for x in self.fstack)

    def find_lam(self, t, depth=0):
        if t is None or depth > 6:
            return None
        if t[0] == 'lam':
            return t
        if t[0] == 'deref':
            return self.find_lam(t[1], depth + 1)
        if t[0] == 'ctor' and len(t[2]) == 1:
            return self.find_lam(t[2][0], depth + 1)
        if t[0] == 'var':
            ds = self.defs.get(t[1], [])
            if len(ds) == 1:
                return self.find_lam(ds[0], depth + 1)
        if t[0] == 'fld':
            ds = self.fdefs.get(t, [])
            if len(ds) == 1:
                return self.find_lam(ds[0], depth + 1)
        return None

    def call_lam(self, lt, args, line, n, hof=False, markers=False):
        ast, env = self.lams[lt[1]]
        fids = [ast['f']] if 'f' in ast else ast.get('insts', [])
        for fid in fids:
            f = self.P.fns.get(fid)
            if f is None or any(x.fn is f for x in self.fstack) or len(self.fstack) >= self.max_depth + 4:
                continue
            a = args
            if hof:
                a = tuple(self.newvar(p['n'], p['t'], 'local', elem_of=args[0] if args else None) for p in f.params)
                for x in a:
                    self.defs[x[1]].append(('op', 'elem', args[0] if args else ('x', '')))
            return self.inline_call(f, env_this(env), a, line, n, env=env)
        return None

    def inline_call(self, f, this, args, line, n, args_e=None, env=None):
        fr = Frame(f, None if f.static or not f.cls else this, env)
        if f.kind == 'lambda':
            fr.this = None
        asg = assigned_vars(f)
        save_scope, save_frame, save_tmp = self.scope, self.frame, self.tmp_dtors
        en = self.emit('enter', line, fn=f, this=this, call=n)
        self.frame = fr
        self.fstack.append(fr)
        self.tmp_dtors = []
        for i, p in enumerate(f.params):
            a = args[i] if i < len(args) else None
            if a is None:
                fr.vars[p['d']] = self.newvar(p['n'], p['t'], 'parm')
                continue
            if p['t'].endswith('&') or p['d'] not in asg:
                fr.vars[p['d']] = a
            else:
                u = self.newvar(p['n'], p['t'], 'local')
                self.defs[u[1]].append(a)
                fr.vars[p['d']] = u
                self.emit('decl', line, var=u, rhs=a, t=p['t'], name=p['n'])
        rets = count_returns(f)
        fr.retvar = None
        if f.ret != 'void':
            fr.retvar = self.newvar('ret:' + f.name, f.ret, 'ret')
        leave = self.node('leave', line, fn=f)
        self.body(f, fr, leave)
        self.fstack.pop()
        self.frame, self.tmp_dtors = save_frame, save_tmp
        self.scope = save_scope
        # is leave reachable?
        self.cur = [(leave, None)]
        rv = fr.retvar
        if rv is None:
            return ('x', 'void')
        ds = self.defs[rv[1]]
        if len(ds) == 1 and rets == 1 and ds[0][0] != 'op' and ds[0][0] not in ('x',):
            return ds[0]
        if len(ds) == 1 and rets == 1 and ds[0][0] == 'op' and ds[0][1] != 'boolexpr':
            return ds[0]
        return rv


def env_this(env):
    fr = env
    while fr is not None:
        if fr.this is not None:
            return fr.this
        fr = fr.env
    return None


_asg_cache = {}


def assigned_vars(fn):
    """decl ids of variables of fn that are assigned/incremented/address-taken after declaration"""
    r = _asg_cache.get(fn.id)
    if r is None:
        r = set()
        for x in walk([fn.body, fn.inits]):
            k = x.get('k')
            if k == 'bin' and x['op'] in Builder.ASSIGN or k == 'un' and x['op'] in ('++', '--', 'p++', 'p--'):
                l = x.get('a') if k == 'bin' else x.get('e')
                if l and l.get('k') == 'ref' and 'd' in l:
                    r.add(l['d'])
            if k == 'call' and x.get('op') in Builder.ASSIGN | {'++', '--'} and x.get('o') and x['o'].get('k') == 'ref' and 'd' in x['o']:
                r.add(x['o']['d'])
            if k == 'un' and x['op'] == '&' and x['e'].get('k') == 'ref' and 'd' in x['e']:
                r.add(x['e']['d'])
        _asg_cache[fn.id] = r
    return r


_ret_cache = {}


def count_returns(fn):
    r = _ret_cache.get(fn.id)
    if r is None:
        r = 0
        st = [fn.body]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'return':
                    r += 1
                if x.get('k') == 'lambda':
                    continue
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                st.extend(x)
        _ret_cache[fn.id] = r
    return r


SCALARS = {'int', 'bool', 'char', 'unsigned int', 'long', 'unsigned long', 'short', 'float', 'double', 'unsigned char', 'unsigned short', 'long long', 'unsigned long long', 'signed char', 'void'}


def needs_dtor(t):
    t = t.strip()
    if t.endswith('&') or t.endswith('*') or t.endswith('*const') or t.endswith('* const'):
        return False
    b = t.replace('const ', '').replace('volatile ', '')
    if b in SCALARS or b.endswith(']') and b.split('[')[0].strip() in SCALARS:
        return False
    return True


class Graph:
    def __init__(self, b):
        self.b = b
        self.P = b.P
        self.nodes = b.nodes
        self.entry = b.entry
        self.exit = b.exit
        self.exc_exit = b.exc_exit
        self.term = b.term_node
        self.defs = b.defs
        self.vinfo = b.vinfo
        self.lams = b.lams
        self.async_lams = b.async_lams
        self.root = b.root
        self.reach()
        # a variable given to an unknown function by non-const reference no longer has its initial value
        for n in self.nodes:
            if n.id in self.live and n.kind == 'call' and not any(m.kind == 'enter' for m, _ in n.succ):
                for a, pt in zip(n.d['args'], n.d.get('pt') or []):
                    if pt.endswith('&') and not pt.endswith('&&') and not pt.startswith('const ') and a[0] == 'var' and len(self.defs.get(a[1], ())) == 1 \
                            and self.vinfo.get(a[1], {}).get('t', '').replace('const ', '') in SCALARS:
                        self.defs[a[1]] = list(self.defs[a[1]]) + [('x', 'refarg')]

    def reach(self):
        seen = set()
        st = [self.entry]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            st.extend(m for m, _ in n.succ)
        self.live = seen
        self.pred = {}
        for n in self.nodes:
            if n.id in seen:
                for m, l in n.succ:
                    self.pred.setdefault(m.id, []).append((n, l))

    def find(self, pred):
        return [n for n in self.nodes if n.id in self.live and pred(n)]

    def calls(self, *qs):
        return [n for n in self.nodes if n.id in self.live and n.kind == 'call' and (n.d['q'] in qs or short(n.d['q']) in qs)]

    def resolve(self, t, depth=0):
        """expand single-definition locals by their definition"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'var':
            ds = self.defs.get(t[1], [])
            if len(ds) == 1 and depth < 12 and 'idx' not in self.vinfo.get(t[1], ()):
                r = self.resolve(ds[0], depth + 1)
                if r[0] not in ('x',) and r[:2] != ('op', 'boolexpr'):
                    return r
            return t
        if t[0] in ('this', 'glob', 'c', 'enum', 's', 'null', 'lam', 'fn', 'new', 'x', 'sizeof'):
            return t
        if t[0] == 'fld' and t[1] and t[1][0] == 'var':
            # members of a local object of a repository class keep their identity
            ty = self.vinfo.get(t[1][1], {}).get('t', '').replace('const ', '')
            if ty in self.P.classes:
                return t
        out = []
        for y in t:
            if isinstance(y, tuple):
                if y and isinstance(y[0], str):
                    out.append(self.resolve(y, depth))
                else:
                    out.append(tuple(self.resolve(z, depth) if isinstance(z, tuple) else z for z in y))
            else:
                out.append(y)
        return tuple(out)

    def sources(self, t, depth=0, seen=None):
        """every term that may flow into t (all definitions of every variable, transitively)"""
        if seen is None:
            seen = set()
        for s in sub(t):
            yield s
            if s[0] == 'var' and s[1] not in seen:
                seen.add(s[1])
                for d in self.defs.get(s[1], []):
                    yield from self.sources(d, depth + 1, seen)

    def live_vars(self):
        """node id -> local variables whose current value may still be read"""
        if getattr(self, '_livev', None) is None:
            use, kill = {}, {}
            rc = {}

            def vars_of(t):
                if t not in rc:
                    rc[t] = frozenset(s[1] for x in (t, self.resolve(t)) for s in sub(x) if s[0] == 'var')
                return rc[t]
            for n in self.nodes:
                u = set()
                for k, v in n.d.items():
                    if (n.kind == 'write' and k == 'lhs' or n.kind == 'decl' and k == 'var' and v is not None) and v[0] == 'var' and not self.vinfo.get(v[1], {}).get('t', '').endswith('&'):
                        kill[n.id] = v[1]
                        continue
                    if isinstance(v, tuple):
                        for x in ([v] if v and isinstance(v[0], str) else v):
                            if isinstance(x, tuple):
                                u |= vars_of(x)
                use[n.id] = u
            live = {n.id: set(use[n.id]) for n in self.nodes}
            todo = deque(reversed(self.nodes))
            inq = {n.id for n in self.nodes}
            while todo:
                n = todo.popleft()
                inq.discard(n.id)
                o = set(use[n.id])
                for m, l in n.succ:
                    o |= live[m.id] - ({kill[n.id]} if n.id in kill else set())
                if o - live[n.id] or len(o) > len(live[n.id]):
                    live[n.id] |= o
                    for p, _ in self.pred.get(n.id, ()):
                        if p.id not in inq:
                            inq.add(p.id)
                            todo.append(p)
            self._livev = live
        return self._livev

    def src_calls(self, t):
        return {s[1] for s in self.sources(t) if s[0] == 'call'}

    def src_fields(self, t):
        return {s[2] for s in self.sources(t) if s[0] == 'fld'}


# ----------------------------------------------------------------------------------- facts
def strip_ids(t):
    return t


NEG = {'!=': '==', '>=': '<', '<=': '>'}


def norm(t):
    """(key, polarity) for a condition term"""
    pol = True
    while True:
        if t[0] == 'op' and t[1] == '!' and len(t) == 3:
            pol = not pol
            t = t[2]
            continue
        if t[0] == 'call' and short(t[1]) == 'operator!' and t[2] is None and len(t[3]) == 1:
            pol = not pol
            t = t[3][0]
            continue
        break
    if t[0] == 'call':
        nm = short(t[1])
        ops = None
        if nm in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            ops = (t[3] if t[2] is None else (t[2],) + t[3])
            if len(ops) == 2:
                t = ('op', nm[8:], ops[0], ops[1])
    if t[0] == 'op' and len(t) == 4 and t[1] in ('==', '!=', '<', '>', '<=', '>='):
        op, a, b = t[1], t[2], t[3]
        if op == '!=':
            op, pol = '==', not pol
        elif op == '>':
            op, a, b = '<', b, a
        elif op == '>=':
            op, pol = '<', not pol
        elif op == '<=':
            op, a, b, pol = '<', b, a, not pol
        if op == '==':
            za = a[0] in ('c', 'enum', 's', 'null')
            zb = b[0] in ('c', 'enum', 's', 'null')
            if za and not zb:
                a, b = b, a
            elif not za and not zb and repr(b) < repr(a):
                a, b = b, a
            if b == ('null',):
                return (a, not pol)     # p == nullptr  ->  !p
            if b == ('c', 0) and False:
                return (a, not pol)
        return (('op', op, a, b), pol)
    return (t, pol)


def constval(t):
    if t[0] == 'c':
        return t[1]
    if t[0] == 'enum':
        return t[2]
    return None


def evalc(key, facts):
    """truth of a normalised condition under facts (dict key->value), or None"""
    c = constval(key)
    if c is not None and key[0] in ('c', 'enum'):
        return bool(c)
    if key[0] == 'null':
        return False
    if key in facts:
        v = facts[key]
        if isinstance(v, bool):
            return v
        if isinstance(v, tuple):
            return bool(v[1])
    if key[0] == 'op' and key[1] == '==' and len(key) == 4:
        a, b = key[2], key[3]
        vb = constval(b)
        va = constval(a)
        if va is None and a in facts and isinstance(facts[a], tuple):
            va = facts[a][1]
        if va is not None and vb is not None:
            return va == vb
        if vb is not None:
            for k, v in facts.items():
                if v is True and k[0] == 'op' and k[1] == '==' and len(k) == 4 and k[2] == a:
                    vo = constval(k[3])
                    if vo is not None and vo != vb:
                        return False
        if a == b and a[0] in ('var', 'fld', 'this'):
            return True
        if vb == 0 and isinstance(vb, int):
            # x == 0  vs  truthiness of x
            if a in facts and isinstance(facts[a], bool):
                return not facts[a]
        if isinstance(vb, int) and a in facts and facts[a] is False and vb != 0:
            return False
        if isinstance(vb, int):
            lo, hi = interval(a, facts)
            if lo and (vb < lo[0] or lo[1] and vb == lo[0]) or hi and (vb > hi[0] or hi[1] and vb == hi[0]):
                return False
    if key[0] == 'op' and key[1] == '<' and len(key) == 4:
        a, b = key[2], key[3]
        va, vb = constval(a), constval(b)
        if va is None and a in facts and isinstance(facts[a], tuple):
            va = facts[a][1]
        if vb is None and b in facts and isinstance(facts[b], tuple):
            vb = facts[b][1]
        if va is not None and vb is not None:
            try:
                return va < vb
            except TypeError:
                return None
        # a < b known from a == c
        for k, v in facts.items():
            if v is True and k[0] == 'op' and k[1] == '==' and len(k) == 4:
                co = constval(k[3])
                if co is None:
                    continue
                try:
                    if k[2] == a and vb is not None:
                        return co < vb
                    if k[2] == b and va is not None:
                        return va < co
                except TypeError:
                    pass
        if isinstance(vb, int):
            lo, hi = interval(a, facts)
            if hi and (hi[0] < vb or hi[1] and hi[0] == vb):
                return True
            if lo and lo[0] >= vb:
                return False
        if isinstance(va, int):
            lo, hi = interval(b, facts)
            if lo and (va < lo[0] or lo[1] and va == lo[0]):
                return True
            if hi and hi[0] <= va:
                return False
    return None


def interval(t, facts):
    """bounds of a term known from comparison facts with constants: ((lo, strict), (hi, strict)) or None"""
    lo = hi = None
    for k, v in facts.items():
        if v is not True and v is not False or k[0] != 'op' or k[1] != '<' or len(k) != 4:
            continue
        if k[2] == t:
            c = constval(k[3])
            if isinstance(c, int):
                if v:
                    hi = (c, True) if hi is None or c <= hi[0] else hi
                else:
                    lo = (c, False) if lo is None or c > lo[0] else lo
        elif k[3] == t:
            c = constval(k[2])
            if isinstance(c, int):
                if v:
                    lo = (c, True) if lo is None or c >= lo[0] else lo
                else:
                    hi = (c, False) if hi is None or c < hi[0] else hi
    return lo, hi


def mentions_var(key, uid):
    return any(s[0] == 'var' and s[1] == uid for s in sub(key))


class Facts:
    """path facts: immutable mapping condition-key -> bool, or var term -> ('=', const)"""

    def __init__(self, graph, limit=24):
        self.g = graph
        self.limit = limit
        self.rcache = {}
        self.vcache = {}

    def key(self, cond):
        r = self.rcache.get(cond)
        if r is None:
            r = norm(self.g.resolve(cond))
            self.rcache[cond] = r
        return r

    def vars(self, key):
        r = self.vcache.get(key)
        if r is None:
            r = self.vcache[key] = tuple({s[1] for s in sub(key) if s[0] == 'var'})
        return r

    def branch(self, facts, cond, taken):
        """facts after taking the branch, or None if infeasible"""
        key, pol = self.key(cond)
        want = taken if pol else (not taken)
        d = dict(facts)
        v = evalc(key, d)
        if v is not None:
            if v != want:
                return None
            if key in d:
                return facts
        if cond[0] == 'var' and cond in d:
            rvv = d[cond]
            rvv = rvv[1] if isinstance(rvv, tuple) else rvv
            if isinstance(rvv, (bool, int)) and bool(rvv) != taken:
                return None
        if key[0] in ('c', 'enum', 'x', 's'):
            return facts
        if key[0] == 'op' and key[1] in ('forr', 'hof'):
            return facts
        d[key] = want
        # raw variable too
        k2, p2 = norm(cond)
        while k2 != key and k2[0] == 'var' and k2 not in d:
            d[k2] = taken if p2 else (not taken)
            # and the variable it was copied from
            ds = self.g.defs.get(k2[1], [])
            if len(ds) != 1 or ds[0] is None:
                break
            k3, p3 = norm(ds[0])
            if k3[0] != 'var' or len(self.g.defs.get(k3[1], [])) != 1:
                break
            k2, p2 = k3, p3 == p2
        return frozenset(d.items())

    def switch(self, facts, cond, label):
        r = self.g.resolve(cond)
        d = dict(facts)
        if label[0] == 'case':
            k = ('op', '==', r, ('c', label[1]))
            v = evalc(k, d)
            if v is False:
                return None
            d[k] = True
        else:
            for val in label[1]:
                k = ('op', '==', r, ('c', val))
                v = evalc(k, d)
                if v is True:
                    return None
                d[k] = False
        return frozenset(d.items())

    def local_obj(self, t):
        """field of a local value object (not reachable by an unknown callee), or a member no function of the program
        changes after construction (CONST_FIELDS, filled by checks that load the whole program)"""
        if t and t[0] == 'fld' and t[2] in CONST_FIELDS:
            return True
        while t and t[0] == 'fld':
            t = t[1]
        if not t or t[0] != 'var':
            return False
        i = self.g.vinfo.get(t[1], {})
        ty = i.get('t', '')
        return i.get('kind') == 'local' and not ty.endswith(('&', '*')) and not ty.replace('const ', '').startswith(SMART)

    def kill(self, facts, fn):
        return frozenset((k, v) for k, v in facts if not fn(k))

    def step(self, facts, n):
        k = n.kind
        if not facts and k not in ('write', 'decl'):
            return facts
        if k in ('write', 'decl'):
            lhs = n.d.get('lhs') if k == 'write' else n.d.get('var')
            if lhs is None:
                return facts
            rhs = n.d.get('rhs')
            rv = None
            if rhs is not None:
                rr = rhs
                if rr[0] == 'var':
                    m = dict(facts).get(rr)
                    if isinstance(m, tuple):
                        rv = m[1]
                    elif isinstance(m, bool):
                        rv = m
                elif rr[0] in ('c', 'enum'):
                    rv = constval(rr)
                elif rr[0] == 'op' and rr[1] == '!' and rr[2][0] == 'var':
                    m = dict(facts).get(rr[2])
                    if isinstance(m, tuple):
                        rv = 0 if m[1] else 1
                    elif isinstance(m, bool):
                        rv = 0 if m else 1
            if lhs[0] == 'var':
                uid = lhs[1]
                if not (k == 'decl' and rhs is not None and rhs[0] == 'ctor'):
                    facts = self.kill(facts, lambda key: mentions_var(key, uid))
            else:
                q = lhs[2] if lhs[0] == 'fld' else None
                if q:
                    own = self.local_obj(lhs) and lhs[1][0] == 'var'
                    # two different local objects do not share members
                    facts = self.kill(facts, lambda key: any(s[0] == 'fld' and s[2] == q and not (own and s[1] != lhs[1] and s[1][0] == 'var' and self.local_obj(s)) for s in sub(key)))
                else:
                    facts = self.kill(facts, lambda key: any(s[0] in ('deref', 'idx') for s in sub(key)))
            if rv is not None and n.d.get('op') in ('=', None, 'init', 'store', 'exchange'):
                d = dict(facts)
                d[lhs] = ('=', int(rv) if isinstance(rv, bool) else rv)
                facts = frozenset(d.items())
            elif rhs is not None and rhs[0] == 'null':
                d = dict(facts)
                d[lhs] = False
                facts = frozenset(d.items())
            return facts
        if k == 'dtor' and n.d['t'].startswith(LOCK_TYPES) or k == 'call' and n.d.get('obj') is not None and short(n.d['q']) == 'unlock':
            # other threads may change shared fields from here on
            facts = self.kill(facts, lambda key: any(s[0] == 'fld' and not self.local_obj(s) for s in sub(key)))
        if k == 'call':
            nid = n.id
            facts = self.kill(facts, lambda key: any(s[0] == 'call' and s[4] == nid for s in sub(key)))
            if n.d['q'] in WAITS or n.d['q'].startswith('std::condition_variable') and short(n.d['q']).startswith('wait'):
                facts = self.kill(facts, lambda key: any(s[0] in ('glob', 'deref') or s[0] == 'fld' and not self.local_obj(s) for s in sub(key)))
            if not is_pure(n.d) and not any(m.kind == 'enter' for m, _ in n.succ):
                esc, esc2 = set(), set()
                pts = n.d.get('pt') or []
                for a, pt in zip(n.d['args'], pts):
                    if ('&' in pt and not pt.startswith('const ')) or (pt.endswith('*') and not pt.startswith('const ')):
                        for s in sub(a):
                            if s[0] == 'var':
                                (esc if not is_element(a) else esc2).add(s[1])
                o = n.d.get('obj')
                if o is not None:
                    for s in sub(o):
                        if s[0] == 'var':
                            esc.add(s[1])
                inlined = any(m.kind == 'enter' for m, _ in n.succ)
                if not inlined:
                    oq = {s[2] for s in sub(o) if s[0] == 'fld'} if o is not None else set()
                    ext = not (n.d['q'].startswith('fair::mq') or n.d.get('callee') or n.d['q'].startswith(('std::function', 'boost::signals2::signal', 'boost::function')) and short(n.d['q']) == 'operator()')
                    if ext:
                        # library calls touch only their object and their reference arguments
                        aq = set(oq)
                        for a, pt in zip(n.d['args'], pts):
                            if ('&' in pt and not pt.startswith('const ')) or pt.endswith('*'):
                                aq |= {s[2] for s in sub(a) if s[0] == 'fld'}
                        facts = self.kill(facts, lambda key: any((s[0] == 'fld' and s[2] in aq) or (s[0] == 'var' and s[1] in esc) for s in sub(key)) or bool(esc2) and mentions_element(key, esc2))
                    else:
                        facts = self.kill(facts, lambda key: any(s[0] in ('glob', 'deref') or s[0] == 'fld' and not self.local_obj(s) or (s[0] == 'var' and s[1] in esc) for s in sub(key)) or bool(esc2) and mentions_element(key, esc2))
            return facts
        return facts


CONST_FIELDS = set()


def is_element(a):
    """the argument designates an element of a container (or something an element points to), not the container"""
    return any(y[0] == 'call' and short(y[1]) in ('operator[]', 'at', 'front', 'back') for y in sub(a))


def mentions_element(key, vs):
    """key depends on one of the variables other than through its number of elements"""
    if not isinstance(key, tuple) or not key:
        return False
    if key[0] == 'var':
        return key[1] in vs
    if key[0] == 'call' and short(key[1]) in ('size', 'empty'):
        return False
    return any(mentions_element(y, vs) if y and isinstance(y[0], str) else any(mentions_element(z, vs) for z in y) for y in key if isinstance(y, tuple))


class Path(list):
    pass


def run(graph, init, step, edge=None, facts=True, limit=400000, start=None, init_facts=(), inject=None, keep=None):
    """Path-sensitive worklist. State = (facts, s). step(node, s) -> iterable of s' (None prunes).
    edge(node, succ, label, s) -> s' or None. Returns (reached: node id -> set of states, trace fn)."""
    F = Facts(graph) if facts else None
    start = start or graph.entry
    reached = {}
    parent = {}
    wl = deque()
    s0 = (frozenset(init_facts), init)
    wl.append((start, s0))
    reached.setdefault(start.id, set()).add(s0)
    parent[(start.id, s0)] = None
    cnt = 0
    widen = {}
    while wl:
        n, st = wl.popleft()
        cnt += 1
        if cnt > limit:
            raise GraphTooBig('dataflow limit in ' + graph.root.q)
        fs, s = st
        if F:
            fs2 = F.step(fs, n)
            if inject is not None:
                fs2 = inject(n, fs2)
        else:
            fs2 = fs
        for s2 in step(n, s, fs):
            for (m, lab) in n.succ:
                f3 = fs2
                if F and n.kind == 'branch' and lab in (True, False):
                    f3 = F.branch(fs2, n.d['cond'], lab)
                    if f3 is None:
                        continue
                elif F and n.kind == 'switch' and isinstance(lab, tuple):
                    f3 = F.switch(fs2, n.d['cond'], lab)
                    if f3 is None:
                        continue
                s3 = s2
                if edge is not None:
                    s3 = edge(n, m, lab, s2)
                    if s3 is None:
                        continue
                if F and keep is not None:
                    f3 = frozenset(x for x in f3 if keep(x[0]))
                # widening: too many distinct fact sets at a node -> drop facts
                if F:
                    w = reached.get(m.id)
                    if f3 and m.kind not in ('dtor', 'leave'):
                        lv = graph.live_vars()[m.id]
                        if any(k[0] == 'var' and k[1] not in lv for k, v in f3):
                            f3 = frozenset((k, v) for k, v in f3 if k[0] != 'var' or k[1] in lv)    # never read again
                    if w is not None and len(w) > 16:
                        lv = graph.live_vars()[m.id]
                        f3 = frozenset((k, v) for k, v in f3 if all(x in lv for x in F.vars(k)))
                    if w is not None and len(w) > 160:
                        f3 = keep_consts(f3)
                        if len(w) > 400:
                            f3 = frozenset((k, v) for k, v in f3 if k[0] == 'x' or k[0] == 'fld' and F.local_obj(k) or k[0] == 'var' and isinstance(v, tuple)) if len(w) < 1500 else frozenset()
                ns = (f3, s3)
                r = reached.setdefault(m.id, set())
                if ns in r:
                    continue
                r.add(ns)
                parent[(m.id, ns)] = (n, st)
                wl.append((m, ns))

    def trace(node, st):
        out = []
        k = (node, st)
        while k is not None:
            out.append(k[0])
            k = parent.get((k[0].id, k[1]))
        return list(reversed(out))

    return reached, trace


def keep_consts(fs):
    return frozenset((k, v) for k, v in fs if k[0] == 'x' or isinstance(v, tuple) and (k[0] == 'var' or k[0] == 'fld'))


def fmt_trace(nodes):
    out = []
    last = None
    for n in nodes:
        if n.kind in ('branch', 'call', 'write', 'throw', 'ret', 'switch', 'dtor', 'catch', 'exit', 'excexit') and n.line:
            x = (n.file, n.line)
            if x != last:
                out.append('%s:%s' % x)
                last = x
    return out[-14:]


def must_facts(graph):
    """node id -> frozenset of (key, polarity/const) true on every path reaching it (before it)"""
    F = Facts(graph)
    IN = {graph.entry.id: frozenset()}
    wl = deque([graph.entry])
    inwl = {graph.entry.id}
    while wl:
        n = wl.popleft()
        inwl.discard(n.id)
        f = F.step(IN[n.id], n)
        for (m, lab) in n.succ:
            g = f
            if n.kind == 'branch' and lab in (True, False):
                g = F.branch(f, n.d['cond'], lab)
                if g is None:
                    continue
            elif n.kind == 'switch' and isinstance(lab, tuple):
                g = F.switch(f, n.d['cond'], lab)
                if g is None:
                    continue
            if m.id not in IN:
                IN[m.id] = g
            else:
                h = IN[m.id] & g
                if h == IN[m.id]:
                    continue
                IN[m.id] = h
            if m.id not in inwl:
                inwl.add(m.id)
                wl.append(m)
    return IN
