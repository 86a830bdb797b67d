"""Loops over all elements of a container are brought into one form (range-for) before analysis:
iterator loops, index loops and std::for_each over the whole container."""
import copy
import glob
import os
import re

BEGIN = ('begin', 'cbegin')
END = ('end', 'cend')


def name_of(q):
    """last component of a qualified name, template arguments of the enclosing classes ignored"""
    d, out = 0, []
    for c in q or '':
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).split('::')[-1]


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ka = [k for k in a if k not in ('l', 'ict', 'el', 't', 'f', 'ne', 'const', 'q')]
        kb = [k for k in b if k not in ('l', 'ict', 'el', 't', 'f', 'ne', 'const', 'q')]
        if set(ka) != set(kb):
            return False
        if a.get('q') != b.get('q') and name_of(a.get('q')) != name_of(b.get('q')):
            return False
        return all(same(a[k], b[k]) for k in ka)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)


def over(call, names):
    """X of X.begin() / std::begin(X)"""
    while isinstance(call, dict) and call.get('k') in ('cast', 'paren', 'ctor') and (call.get('e') is not None or len(call.get('a') or ()) == 1):
        call = call.get('e') or call['a'][0]
    if not isinstance(call, dict) or call.get('k') != 'call' or name_of(call.get('q')) not in names:
        return None
    if call.get('o') is not None:
        return call['o'] if not call.get('a') else None
    return call['a'][0] if len(call.get('a') or ()) == 1 else None


def operands(c):
    """(op, a, b) of a comparison, builtin or overloaded"""
    if c is None:
        return None
    if c.get('k') == 'bin':
        return c['op'], c['a'], c['b']
    if c.get('k') == 'call' and c.get('op') in ('!=', '<', '>', '=='):
        xs = ([c['o']] if c.get('o') is not None else []) + list(c.get('a') or ())
        if len(xs) == 2:
            return c['op'], xs[0], xs[1]
    if c.get('k') == 'un' and c.get('op') == '!':
        x = operands(c.get('e'))
        if x and x[0] in ('==', '>=', '<='):
            return {'==': '!=', '>=': '<', '<=': '>'}[x[0]], x[1], x[2]
    return None


def is_ref(e, d):
    return isinstance(e, dict) and e.get('k') == 'ref' and e.get('d') == d


def step_of(e):
    """the variable incremented by one by this expression"""
    if not isinstance(e, dict):
        return None
    if e.get('k') == 'un' and e.get('op') in ('++', 'p++'):
        return e['e']
    if e.get('k') == 'call' and e.get('op') == '++':
        return e.get('o') if e.get('o') is not None else (e['a'][0] if e.get('a') else None)
    if e.get('k') == 'bin' and e.get('op') == '+=' and isinstance(e.get('b'), dict) and e['b'].get('cv') == 1:
        return e['a']
    return None


def for_range(s):
    """(container, element type, use(x) -> element expression?) of a for loop over all elements"""
    init = s.get('init')
    if not init or init.get('k') != 'decl' or s.get('cvd') or not s.get('c') or not s.get('inc'):
        return None
    vs = init.get('v') or []
    if not 1 <= len(vs) <= 2 or any(v.get('init') is None for v in vs):
        return None
    x = operands(s['c'])
    if x is None:
        return None
    op, a, b = x
    d = vs[0]['d']
    if is_ref(b, d):
        a, b = b, a
        op = {'<': '>', '>': '<'}.get(op, op)
    if not is_ref(a, d) or op not in ('!=', '<') or not is_ref(step_of(s['inc']), d):
        return None
    if len(vs) == 2:
        if not is_ref(b, vs[1]['d']):
            return None
        b = vs[1]['init']
    X = over(vs[0]['init'], BEGIN)
    if X is not None:
        Y = over(b, END)
        if Y is None or not same(X, Y):
            return None

        def use(e):
            if e.get('k') == 'call' and e.get('op') in ('*', '->') and not (e.get('a') if e.get('o') is not None else (e.get('a') or [])[1:]):
                return is_ref(e.get('o') if e.get('o') is not None else (e.get('a') or [None])[0], d)
            return e.get('k') == 'un' and e.get('op') == '*' and is_ref(e.get('e'), d)
        return X, d, use, [v['d'] for v in vs]
    if vs[0]['init'].get('cv') == 0 and 'long' in (vs[0]['t'] + 'long') and not vs[0]['t'].endswith('*'):
        Y = over(b, ('size',))
        if Y is None:
            return None

        def use(e):
            if e.get('k') == 'call' and (e.get('op') == '[]' or name_of(e.get('q')) == 'at') and e.get('o') is not None and len(e.get('a') or ()) == 1:
                return same(e['o'], Y) and is_ref(e['a'][0], d)
            return False
        if not ('std::vector<' in (Y.get('t') or '') or 'std::array<' in (Y.get('t') or '') or 'std::deque<' in (Y.get('t') or '') or 'Parts' in (Y.get('t') or '')):
            return None
        return Y, d, use, [v['d'] for v in vs]
    return None


def plain(X):
    """evaluating X again yields the same container"""
    for y in walk(X):
        k = y.get('k')
        if k in ('ref', 'mem', 'this', 'cast', 'paren', 'int', 'str', None):
            continue
        if k == 'call' and (name_of(y.get('q')) in ('at', 'Get', 'fParts', 'operator->', 'operator*', 'GetChannels') or y.get('op') in ('*', '->')):
            continue
        if k == 'un' and y.get('op') in ('*', '&'):
            continue
        return False
    return True


def rewrite(s):
    r = for_range(s)
    if r is None:
        return False
    X, d, use, ds = r
    if not plain(X):
        return False
    uses, inner = [], set()
    for e in walk(s['b']):
        if use(e):
            uses.append(e)
            for z in walk([v for k, v in e.items()]):
                inner.add(id(z))
    if not uses:
        return False
    for e in walk(s['b']):
        if id(e) in inner:
            continue
        if e.get('d') in ds and not any(e is u for u in uses):
            return False        # the position itself is used
        if e.get('k') == 'call' and e.get('o') is not None and not e.get('const') and same(e['o'], X) and not any(e is u for u in uses) and name_of(e.get('q')) not in BEGIN + END:
            return False        # the container changes
    t = uses[0].get('t') or ''
    if uses[0].get('op') == '->':
        t = t.rstrip(' *')
    for e in uses:
        arrow = e.get('op') == '->'
        l = e.get('l')
        e.clear()
        e.update({'k': 'ref', 'd': d, 'dk': 'var', 'n': '*%d' % d, 't': t, 'l': l})
    b, l = s['b'], s.get('l', 0)
    s.clear()
    s.update({'k': 'forr', 'l': l, 'range': X, 'var': {'d': d, 'n': 'element', 't': t + ' &', 'l': l, 'ref': True}, 'b': b})
    return True


def loops(body):
    n = 0
    for s in walk(body):
        if s.get('k') == 'for' and rewrite(s):
            n += 1
    return n


def bool_return(s):
    """the constant returned by  return true;  /  { return false; }"""
    while isinstance(s, dict) and s.get('k') in ('block', None) and isinstance(s.get('b'), list) and len(s['b']) == 1:
        s = s['b'][0]
    if isinstance(s, dict) and s.get('k') == 'return' and isinstance(s.get('e'), dict) and s['e'].get('k') == 'bool' and s['e'].get('cv') in (0, 1):
        return bool(s['e']['cv'])
    return None


def conditions(body):
    """if (E) return true; return false;  ->  return E;"""
    for s in walk(body):
        b = s.get('b')
        if not isinstance(b, list) or s.get('k') not in ('block', None):
            continue
        for i, x in enumerate(b):
            if not isinstance(x, dict) or x.get('k') != 'if' or x.get('init') or x.get('cvd') or not isinstance(x.get('c'), dict):
                continue
            one = bool_return(x.get('then'))
            if one is None:
                continue
            if x.get('else') is not None:
                two = bool_return(x['else'])
            elif i + 1 < len(b):
                two = bool_return(b[i + 1])
            else:
                two = None
            if two is None or two == one:
                continue
            e = x['c'] if one else {'k': 'un', 'op': '!', 'e': x['c'], 't': 'bool', 'l': x.get('l')}
            r = {'k': 'return', 'e': e, 'l': x.get('l')}
            if x.get('else') is None:
                del b[i + 1]
            b[i] = r
            break


def returns(body):
    """T x = E; return x;  ->  return E;"""
    for s in walk(body):
        b = s.get('b')
        if not isinstance(b, list) or s.get('k') not in ('block', None):
            continue
        i = 0
        while i + 1 < len(b):
            d, r = b[i], b[i + 1]
            if (isinstance(d, dict) and isinstance(r, dict) and d.get('k') == 'decl' and len(d.get('v') or ()) == 1 and r.get('k') == 'return'):
                v = d['v'][0]
                e = r.get('e')
                while isinstance(e, dict) and (e.get('k') in ('cast', 'paren') and e.get('e') is not None and not e.get('cs') or e.get('k') == 'ctor' and len(e.get('a') or ()) == 1):
                    e = e.get('e') or e['a'][0]
                if isinstance(e, dict) and is_ref(e, v['d']) and v.get('init') is not None and not v.get('ref') and not v.get('static') and not v.get('bind'):
                    r['e'] = v['init']
                    del b[i]
                    continue
            i += 1


STD = ('std::vector<', 'std::map<', 'std::unordered_map<', 'std::set<', 'std::unordered_set<', 'std::basic_string<', 'std::deque<', 'std::list<', 'std::queue<', 'std::multimap<',
       'std::basic_string_view<', 'std::array<', 'boost::interprocess::', 'boost::container::', 'boost::unordered')


def sizes(body):
    """x.size() == 0  ->  x.empty()"""
    for e in walk(body):
        if e.get('k') != 'bin' or e.get('op') not in ('==', '!=', '>', '<', '>=', '<='):
            continue
        op, a, b = e['op'], peel(e['a']), peel(e['b'])
        if isinstance(a, dict) and a.get('cv') is not None:
            op, a, b = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), b, a
        if not (isinstance(b, dict) and b.get('cv') in (0, 1)) or not isinstance(a, dict) or a.get('k') != 'call' or a.get('o') is None or a.get('a'):
            continue
        if not (a.get('q') or '').startswith(STD) or name_of(a['q']) not in ('size', 'length'):
            continue
        empty = {('==', 0): True, ('!=', 0): False, ('>', 0): False, ('<', 1): True, ('>=', 1): False, ('<=', 0): True}.get((op, int(b['cv'])))
        if empty is None:
            continue
        n = len(name_of(a['q']))
        c = dict(a, q=a['q'][:-n] + 'empty', t='bool')
        c.pop('f', None)
        c.pop('ict', None)
        l = e.get('l')
        e.clear()
        e.update(c if empty else {'k': 'un', 'op': '!', 'e': c, 't': 'bool', 'l': l})


NEG = {'==': '!=', '!=': '=='}
NEG_ORD = {'<': '>=', '>=': '<', '>': '<=', '<=': '>'}


def negations(body):
    """!(a == b)  ->  a != b"""
    for e in walk(body):
        while e.get('k') == 'un' and e.get('op') == '!' and isinstance(e.get('e'), dict):
            a = e['e']
            while a.get('k') == 'paren' and isinstance(a.get('e'), dict):
                a = a['e']
            op = a.get('op')
            if a.get('k') == 'bin' and op in NEG:
                new = dict(a, op=NEG[op])
            elif a.get('k') == 'bin' and op in NEG_ORD and not any(x in str(y.get('t', '')) + str(y.get('ict', '')) for y in (a['a'], a['b']) for x in ('float', 'double')):
                new = dict(a, op=NEG_ORD[op])
            elif a.get('k') == 'call' and op in NEG and (a.get('q') or '').startswith(('std::', 'boost::')) and a['q'].endswith(op):
                new = dict(a, op=NEG[op], q=a['q'][:-2] + NEG[op])
                new.pop('f', None)
            elif a.get('k') == 'un' and a.get('op') == '!' and isinstance(a.get('e'), dict) and a['e'].get('t') == 'bool':
                new = dict(a['e'])
            else:
                break
            if e.get('ict') and not new.get('ict'):
                new['ict'] = e['ict']
            new['l'] = e.get('l', new.get('l', 0))
            new.pop('cv', None)
            e.clear()
            e.update(new)


def normalise(body):
    negations(body)
    sizes(body)
    pairs(body)
    loops(body)
    conditions(body)
    returns(body)


def peel(e):
    while isinstance(e, dict):
        if e.get('k') in ('cast', 'paren') and e.get('e') is not None:
            e = e['e']
        elif e.get('k') == 'ctor' and len(e.get('a') or ()) == 1:
            e = e['a'][0]
        elif e.get('k') == 'call' and e.get('q') in ('std::move', 'std::forward') and len(e.get('a') or ()) == 1:
            e = e['a'][0]
        else:
            break
    return e


def call_of(x):
    """(call, is a return) of a statement that is one call"""
    ret = isinstance(x, dict) and x.get('k') == 'return' and x.get('e') is not None
    c = x.get('e') if ret else x
    while isinstance(c, dict) and c.get('k') in ('cast', 'paren') and c.get('e') is not None:
        c = c['e']
    return (c, ret) if isinstance(c, dict) and c.get('k') == 'call' and not c.get('op') else (None, ret)


def bind(f, args):
    """declarations of the parameters of f"""
    return [{'k': 'decl', 'l': a.get('l', 0), 'v': [dict({'d': p['d'], 'n': p.get('n', ''), 't': p['t'], 'l': a.get('l', 0), 'init': a}, **({'ref': True} if p['t'].rstrip().endswith('&') else {}))]}
            for p, a in zip(f.params, args)]


def simple(a):
    a = peel_casts(a)
    k = a.get('k')
    if k in ('this', 'int', 'bool', 'null', 'nullptr', 'str', 'char', 'enum', 'float'):
        return True
    if k == 'ref':
        return True
    if k == 'mem':
        return a.get('b') is None or simple(a['b'])
    return k == 'un' and a.get('op') in ('*', '&', '!') and simple(a['e'])


def peel_casts(a):
    while isinstance(a, dict) and a.get('k') in ('cast', 'paren') and a.get('e') is not None:
        a = a['e']
    return a


def substitute(e, m):
    """a copy of the expression with parameters replaced"""
    if isinstance(e, list):
        return [substitute(x, m) for x in e]
    if not isinstance(e, dict):
        return e
    if e.get('k') == 'ref' and e.get('d') in m:
        a = copy.deepcopy(m[e['d']])
        if e.get('ict') and not a.get('ict'):
            a['ict'] = e['ict']
        return a
    return {k: substitute(v, m) for k, v in e.items()}


def helper_expr(f):
    """E if the function is { return E; }"""
    if not isinstance(f.body, dict) or not isinstance(f.body.get('b'), list) or len(f.body['b']) != 1:
        return None
    x = f.body['b'][0]
    e = x.get('e') if isinstance(x, dict) and x.get('k') == 'return' else None
    return None if e is None or any(y.get('k') == 'lambda' for y in walk(e)) else e


def helper_stmts(f):
    """the statements of a helper without an early return"""
    if not isinstance(f.body, dict) or not isinstance(f.body.get('b'), list):
        return None
    b = list(f.body['b'])
    if b and isinstance(b[-1], dict) and b[-1].get('k') == 'return' and b[-1].get('e') is None:
        b.pop()
    return None if any(y.get('k') == 'return' for y in walk(b)) else b


def splice_call(h, f):
    """puts the body of f where h calls it; the number of calls replaced"""
    n = 0
    st, ex = helper_stmts(f), helper_expr(f)

    def this_call(c):
        return c.get('f') == f.id and (c.get('o') is None or c['o'].get('k') == 'this') and len(c.get('a') or ()) == len(f.params)
    for s in list(walk(h.body)):
        for key in ('b', 'then', 'else', 'body'):
            v = s.get(key)
            for i, x in enumerate(v if isinstance(v, list) and s.get('k') in ('block', None, 'case', 'default') else [v] if isinstance(v, dict) else ()):
                c, ret = call_of(x)
                if c is None or not this_call(c) or key == 'b' and not isinstance(v, list) and s.get('k') not in ('case', 'default', 'for', 'while', 'do', 'forr', 'label'):
                    continue
                b = st if not ret else f.body.get('b') if isinstance(f.body.get('b'), list) and h.ret == f.ret else None
                if b is None:
                    continue
                blk = {'k': 'block', 'l': x.get('l', 0), 'b': bind(f, c.get('a') or []) + list(b)}
                if isinstance(v, list):
                    v[i] = blk
                else:
                    s[key] = blk
                n += 1
    if ex is not None:
        for s in list(walk([h.body, h.inits])):
            if s.get('k') == 'call' and this_call(s):
                m = {p['d']: a for p, a in zip(f.params, s.get('a') or [])}
                if not all(simple(a) for a in m.values()) or any(y.get('k') in ('bin', 'un') and y.get('op') in ('=', '++', '--', '+=', '-=') for y in walk(ex)) or any(y.get('k') == 'call' and y.get('o') is not None and is_ref(y['o'], d) and not y.get('const') for d in m for y in walk(ex)):
                    continue
                e = substitute(ex, m)
                if s.get('ict'):
                    e['ict'] = s['ict']
                s.clear()
                s.update(e)
                n += 1
    return n


def delegates(body):
    """the call if the body is one call (returned or not)"""
    if not isinstance(body, dict) or not isinstance(body.get('b'), list) or len(body['b']) != 1:
        return None
    s = body['b'][0]
    if isinstance(s, dict) and s.get('k') == 'return':
        s = s.get('e')
    while isinstance(s, dict) and (s.get('k') in ('cast', 'paren') and s.get('e') is not None or s.get('k') == 'ctor' and len(s.get('a') or ()) == 1):
        s = s.get('e') or s['a'][0]
    return s if isinstance(s, dict) and s.get('k') == 'call' and not s.get('op') else None


_anchors = []


def anchors():
    """the identifiers the rules speak of"""
    if not _anchors:
        here = os.path.dirname(os.path.abspath(__file__))
        _anchors.append({w for p in glob.glob(os.path.join(here, 'rules_*.py')) for w in re.findall(r'[A-Za-z_]\w*', open(p).read())})
    return _anchors[0]


def own_params(args, params):
    return len(args) == len(params) and all(is_ref(peel(a), p['d']) for a, p in zip(args, params))


def lambda_of(c, prev):
    """(lambda expression, declared variable) of a call of a lambda made on the spot"""
    if not isinstance(c, dict) or c.get('k') != 'call' or c.get('op') != '()' or c.get('a') or c.get('o') is None:
        return None, None
    o = c['o']
    while isinstance(o, dict) and o.get('k') in ('cast', 'paren') and o.get('e') is not None:
        o = o['e']
    if o.get('k') == 'lambda':
        return o, None
    if isinstance(prev, dict) and prev.get('k') == 'decl' and len(prev.get('v') or ()) == 1 and is_ref(o, prev['v'][0]['d']):
        i = prev['v'][0].get('init')
        while isinstance(i, dict) and (i.get('k') in ('cast', 'paren') and i.get('e') is not None or i.get('k') == 'ctor' and len(i.get('a') or ()) == 1):
            i = i.get('e') or i['a'][0]
        if isinstance(i, dict) and i.get('k') == 'lambda' and not prev['v'][0].get('ref') and not prev['v'][0].get('static'):
            return i, prev['v'][0]['d']
    return None, None


def spot_lambdas(body, fns, gone):
    """[&]{ S }();  ->  { S }      return [&]{ S }();  ->  S"""
    for s in walk(body):
        for key in ('b', 'then', 'else'):
            v = s.get(key)
            if isinstance(v, dict) and v.get('k') == 'call':
                _splice({'b': [v]}, fns, gone, body, holder=(s, key))
        if isinstance(s.get('b'), list) and s.get('k') in ('block', None):
            _splice(s, fns, gone, body)


def _splice(s, fns, gone, body, holder=None):
    b = s['b']
    i = 0
    while i < len(b):
        x = b[i]
        ret = isinstance(x, dict) and x.get('k') == 'return' and x.get('e') is not None
        c = x.get('e') if ret else x
        while isinstance(c, dict) and (c.get('k') in ('cast', 'paren') and c.get('e') is not None or ret and c.get('k') == 'ctor' and len(c.get('a') or ()) == 1):
            c = c.get('e') or c['a'][0]
        prev = b[i - 1] if i else None
        lam, d = lambda_of(c, prev)
        f = fns.get(lam.get('f')) if lam is not None else None
        ok = f is not None and f.id not in gone and not f.params and isinstance(f.body, dict) and all(k.get('by') in ('ref', 'this') and not k.get('initcap') for k in lam.get('caps') or ())
        if ok and d is not None:
            ok = sum(1 for y in walk(body) if y.get('d') == d and y.get('k') == 'ref') == 1
        if ok and not ret:
            ok = not any(y.get('k') == 'return' for y in walk(f.body))
        if ok:
            gone.add(f.id)
            blk = dict(f.body)
            blk.setdefault('k', 'block')
            b[i] = blk
            if holder is not None:
                holder[0][holder[1]] = blk
            if d is not None:
                del b[i - 1]
                i -= 1
            continue
        i += 1


def pairs(body):
    """m.insert(std::make_pair(k, v))  ->  m.emplace(k, v)"""
    for e in walk(body):
        if e.get('k') == 'call' and name_of(e.get('q')) == 'insert' and e.get('q', '').startswith(('std::map<', 'std::unordered_map<', 'std::multimap<')) and len(e.get('a') or ()) == 1 and e.get('o') is not None:
            a = e['a'][0]
            while isinstance(a, dict) and (a.get('k') in ('cast', 'paren') and a.get('e') is not None or a.get('k') == 'ctor' and len(a.get('a') or ()) == 1):
                a = a.get('e') or a['a'][0]
            if isinstance(a, dict) and (a.get('k') == 'call' and a.get('q') == 'std::make_pair' or a.get('k') == 'ctor' and (a.get('q') or '').startswith('std::pair<')) and len(a.get('a') or ()) == 2:
                n = len('insert')
                e['q'] = e['q'][:-n] + 'emplace'
                e['a'] = a['a']
                e['pt'] = a.get('pt') or ['', '']
                e.pop('f', None)
