"""Program database built from the extractor's output."""
import json, os
from . import extract as X
from . import canon
try:
    from json import loads
except ImportError:
    pass


class Fn:
    __slots__ = ('id', 'q', 'name', 'file', 'line', 'end', 'ret', 'params', 'body', 'inits', 'cls', 'clsq', 'kind', 'ov', 'virt', 'const',
                 'static', 'acc', 'ta', 'pat', 'ne', 'tu', 'parent', '_calls', '_lams')

    def __init__(s, r):
        for k in ('id', 'q', 'file', 'line', 'end', 'ret', 'params', 'body', 'kind', 'tu'):
            setattr(s, k, r.get(k))
        s.inits = r.get('inits') or []
        s.cls = r.get('cls', '')
        s.clsq = r.get('clsq', '')
        s.ov = r.get('ov') or []
        s.virt = r.get('virt', False)
        s.const = r.get('const', False)
        s.static = r.get('static', False)
        s.acc = r.get('acc', '')
        s.ta = r.get('ta', '')
        s.pat = r.get('pat', '')
        s.ne = r.get('ne', False)
        s.name = s.q.rsplit('::', 1)[-1] if s.q else ''
        s.parent = None
        s._calls = None
        s._lams = None

    def rel(s):
        return s.file.replace(X.REPO + '/', '').replace(X.VERIF + '/', 'verif:')

    def loc(s):
        return '%s:%s' % (s.rel(), s.line)

    def __repr__(s):
        return '<%s %s>' % (s.q, s.loc())


def walk(n):
    """pre-order over every dict node in a JSON AST"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(x)


def _shift(n, off):
    for x in walk(n):
        d = x.get('d')
        if d is not None:
            x['d'] = d + off


class Program:
    def __init__(self, paths, errs=()):
        self._callers = None
        self.fns = {}
        self.byq = {}
        self.classes = {}
        self.clsq = {}
        self.enums = {}
        self.vars = {}
        self.aliases = {}
        self.pats = {}
        self.errs = list(errs)
        self.units = [u for u, _ in paths]
        for i, (u, p) in enumerate(paths):
            off = (i + 1) * 10000000
            with open(p) as f:
                for line in f:
                    # cheap dedupe on the raw record before parsing
                    r = json.loads(line)
                    k = r['r']
                    if k == 'fn':
                        if r['id'] in self.fns:
                            continue
                        _shift(r, off)
                        fn = Fn(r)
                        self.fns[fn.id] = fn
                        self.byq.setdefault(fn.q, []).append(fn)
                    elif k == 'cls':
                        if r['t'] in self.classes:
                            continue
                        _shift(r, off)
                        self.classes[r['t']] = r
                        self.clsq.setdefault(r['q'], []).append(r)
                    elif k == 'enum':
                        self.enums.setdefault(r['q'], r)
                    elif k == 'var':
                        if r['q'] in self.vars and self.vars[r['q']].get('init') is not None:
                            continue
                        _shift(r, off)
                        self.vars[r['q']] = r
                    elif k == 'alias':
                        self.aliases.setdefault(r['q'], r)
                    elif k == 'pat':
                        self.pats.setdefault(r['loc'], r)
        # overriders
        self.overriders = {}
        for f in self.fns.values():
            for o in f.ov:
                self.overriders.setdefault(o, []).append(f)
        # lambdas called where they are made
        gone = set()
        for f in self.fns.values():
            if f.body is not None and f.id not in gone:
                canon.spot_lambdas(f.body, self.fns, gone)
        for i in gone:
            f = self.fns.pop(i)
            self.byq[f.q] = [x for x in self.byq.get(f.q, []) if x is not f]
        # one form for loops over all elements
        for f in self.fns.values():
            if f.body is not None:
                canon.normalise(f.body)
        self.collapse()
        self.helpers()
        # lambda parents
        for f in list(self.fns.values()):
            for x in walk([f.body, f.inits]):
                if x.get('k') == 'lambda':
                    for fid in ([x['f']] if 'f' in x else x.get('insts', [])):
                        l = self.fns.get(fid)
                        if l and l.parent is None:
                            l.parent = f
        # derived classes
        self.derived = {}
        for t, c in self.classes.items():
            for b in c['bases']:
                self.derived.setdefault(b, []).append(t)

    def collapse(self):
        """f(a, b) { return g(a, b); } with a g of the same class that nobody else uses: f has the body of g"""
        cand = {}
        for f in self.fns.values():
            c = canon.delegates(f.body)
            if c is None:
                continue
            g = self.fns.get(c.get('f'))
            if g is None or g is f or g.virt or g.kind in ('ctor', 'dtor', 'lambda') or f.kind in ('ctor', 'dtor', 'lambda') or g.body is None or g.cls != f.cls or len(g.params) != len(f.params) or g.inits:
                continue
            if f.cls is None and g.q.rsplit('::', 1)[0] != f.q.rsplit('::', 1)[0]:
                continue
            o = c.get('o')
            if o is not None and o.get('k') != 'this':
                continue
            if not canon.own_params(c.get('a') or [], f.params):
                continue
            cand[f.id] = g.id
        if not cand:
            return
        used = {}
        want = set(cand.values())
        for f in self.fns.values():
            for x in canon.walk([f.body, f.inits]):
                i = x.get('f')
                if i in want:
                    used.setdefault(i, []).append(f.id)
        names = canon.anchors()

        def whouses(fid):
            return [h for h in self.fns.values() if any(x.get('f') == fid for x in canon.walk([h.body, h.inits]))]
        for fid in sorted(cand, key=lambda i: self.fns[i].loc()):
            f, g = self.fns.get(fid), self.fns.get(cand[fid])
            if f is None or g is None or used.get(g.id) != [fid]:
                continue
            if f.name not in names and g.name in names and not f.virt and len(used.get(fid) or whouses(fid)) and self.dissolve(f, g):
                continue
            f.body = g.body
            f.params = [dict(p, d=q['d']) for p, q in zip(f.params, g.params)]
            if g.id in cand:
                cand[fid] = cand[g.id]
                used[cand[g.id]] = [fid]
            del self.fns[g.id]
            self.byq[g.q] = [x for x in self.byq.get(g.q, []) if x is not g]
            if not self.byq[g.q]:
                del self.byq[g.q]

    def helpers(self):
        """small functions no rule speaks of, used in one place: their bodies are put there"""
        names = canon.anchors()

        def wanted(f):
            return (f.body is not None and f.kind in ('method', 'fn') and not f.virt and not f.ne and f.name not in names and f.q.startswith('fair::mq') and not f.name.startswith('operator')
                    and (f.acc in ('private', 'protected') if f.cls else True) and not f.ta and f.clsq.count('<') == 0)
        for _ in range(4):
            cand = {f.id: f for f in self.fns.values() if wanted(f)}
            use, other = {}, set()
            for h in self.fns.values():
                for x in canon.walk([h.body, h.inits]):
                    i = x.get('f')
                    if i in cand:
                        if x.get('k') == 'call':
                            use.setdefault(i, []).append(h)
                        else:
                            other.add(i)
            done = 0
            for i in sorted(use, key=lambda i: (cand[i].loc(), i)):
                f = cand[i]
                hs = use[i]
                if len(hs) != 1 and (canon.helper_expr(f) is None or len(hs) > 6) or i in other or any(h.file != f.file or h.id == i or f.cls and h.cls != f.cls and h.kind != 'lambda' for h in hs):
                    continue
                if any(x.get('f') == i for x in canon.walk(f.body)):
                    continue
                k = sum(canon.splice_call(h, f) for h in {h.id: h for h in hs}.values())
                done += k
                if k == len(hs):
                    del self.fns[i]
                    self.byq[f.q] = [x for x in self.byq.get(f.q, []) if x is not f]
                    if not self.byq[f.q]:
                        del self.byq[f.q]
            if not done:
                break

    def dissolve(self, f, g):
        """calls of f become calls of g"""
        use = [x for h in self.fns.values() for x in canon.walk([h.body, h.inits]) if x.get('f') == f.id]
        if not all(x.get('k') == 'call' for x in use):
            return False
        for x in use:
            x['f'] = g.id
            x['q'] = g.q
        del self.fns[f.id]
        self.byq[f.q] = [x for x in self.byq.get(f.q, []) if x is not f]
        if not self.byq[f.q]:
            del self.byq[f.q]
        return True

    def serves(self, f, pred, depth=0, seen=()):
        """f satisfies pred, or runs only on behalf of functions that do: a lambda in them, a helper only they call"""
        if pred(f):
            return True
        if depth > 5 or f.id in seen:
            return False
        if f.parent is not None:
            return self.serves(f.parent, pred, depth + 1, seen + (f.id,))
        if self._callers is None:
            self._callers = {}
            for h in self.fns.values():
                for x in self.calls(h):
                    if x.get('f') is not None:
                        self._callers.setdefault(x['f'], {})[h.id] = h
        cs = [h for i, h in self._callers.get(f.id, {}).items() if i != f.id]
        return bool(cs) and f.kind == 'method' and not f.virt and f.acc != 'public' and all(self.serves(h, pred, depth + 1, seen + (f.id,)) for h in cs) or bool(cs) and f.cls is None and all(self.serves(h, pred, depth + 1, seen + (f.id,)) for h in cs)

    def fn(self, q, **kw):
        """all definitions with this qualified name"""
        return self.byq.get(q, [])

    def one(self, q):
        l = self.byq.get(q, [])
        return l[0] if l else None

    def method(self, q, cls=None):
        return [f for f in self.byq.get(q, []) if cls is None or f.cls == cls]

    def all_derived(self, t):
        out, todo = [], [t]
        while todo:
            x = todo.pop()
            for d in self.derived.get(x, []):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def calls(self, f):
        if f._calls is None:
            f._calls = [x for x in walk([f.body, f.inits]) if x.get('k') in ('call', 'ctor')]
        return f._calls

    def lambdas(self, f):
        if f._lams is None:
            r = []
            for x in walk([f.body, f.inits]):
                if x.get('k') == 'lambda':
                    for fid in ([x['f']] if 'f' in x else x.get('insts', [])):
                        if fid in self.fns:
                            r.append(self.fns[fid])
            f._lams = r
        return f._lams

    def transitive_units(self):
        return self.units


_cache = {}


def load(sel=None, variant='release', key=None):
    k = (key, variant)
    if key and k in _cache:
        return _cache[k]
    paths, errs = X.extract(sel, variant)
    p = Program(paths, errs)
    if key:
        _cache[k] = p
    return p
