"""Check driver: context, obligations, known findings, evidence, command line."""
import importlib, json, os, sys, time, traceback
sys.setrecursionlimit(30000)
from . import extract as X, prog as PR, flow as FL
from .flow import Builder, Graph, GraphTooBig, run, must_facts, show, sub, short, fmt_trace, Facts, norm

VERIF = X.VERIF
Broken = X.BrokenAnalysis
PROPS = {}


class Prop:
    def __init__(s, id, fn, units, variants, title):
        s.id, s.fn, s.units, s.variants, s.title = id, fn, units, variants, title


def prop(id, units, thorough_variants=('release', 'debug')):
    def deco(fn):
        PROPS[id] = Prop(id, fn, units, thorough_variants, fn.__doc__)
        return fn
    return deco


class Ctx:
    def __init__(self, pid, P, tier, variant):
        self.pid, self.P, self.tier, self.variant = pid, P, tier, variant
        self.obs = []          # (rule, instance, ok)
        self.viol = []         # dict
        self.analysed = set()
        self.graphs = 0
        self.gcache = {}
        self.nodes = 0

    # -- reporting
    def ob(self, rule, inst, ok, where='', msg='', trace=None):
        """one obligation: rule instance `inst`; ok or violated at `where`"""
        self.obs.append((rule, inst, bool(ok)))
        if not ok:
            self.viol.append(dict(rule=rule, inst=inst, where=where, msg=msg or inst, trace=trace or [], variant=self.variant))
        return ok

    def bad(self, rule, inst, where='', msg='', trace=None):
        return self.ob(rule, inst, False, where, msg, trace)

    def good(self, rule, inst):
        return self.ob(rule, inst, True)

    def broken(self, msg):
        raise Broken('%s: %s' % (self.pid, msg))

    # -- program access
    def fns(self, q, need=1, **kw):
        l = [f for f in self.P.fn(q) if not f.file.startswith(VERIF)]
        if len(l) < need:
            self.broken('no definition of %s found (vanished anchor)' % q)
        return l

    def fn(self, q):
        return self.fns(q)[0]

    def has(self, q):
        return bool(self.P.fn(q))

    def cls(self, q):
        l = self.P.clsq.get(q, [])
        if not l:
            self.broken('class %s not found (vanished anchor)' % q)
        return l[0]

    def graph(self, fn, reads=None, inline=None, exc=True, dtors=True, this=None):
        """event graph of fn with every repository callee inlined (unless `inline` says otherwise)"""
        key = (fn.id, frozenset(reads) if isinstance(reads, (set, frozenset)) else reads, inline, exc, dtors, this)
        g = self.gcache.get(key)
        if g is not None:
            return g
        wr = (lambda q: q in reads) if isinstance(reads, (set, frozenset)) else reads
        inl = inline or (lambda f: True)
        for depth in (12, 5, 3, 2):
            try:
                b = Builder(self.P, inline=inl, want_reads=wr, exc=exc, inline_dtors=dtors, max_depth=depth)
                g = b.build(fn, this)
                break
            except GraphTooBig:
                g = None
        if g is None:
            raise Broken('graph of %s too large' % fn.q)
        self.gcache[key] = g
        self.graphs += 1
        self.nodes += len(g.nodes)
        self.analysed.add(fn.q + ' ' + fn.loc())
        for n in g.nodes:
            if n.kind == 'enter':
                self.analysed.add(n.d['fn'].q + ' ' + n.d['fn'].loc())
        return g


def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    try:
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            # finding: property=<id> rule=<rule> inst=<instance> :: <what fails>
            if line.startswith('finding:'):
                head, _, what = line[len('finding:'):].partition('::')
                kv = {}
                for part in head.strip().split(' | '):
                    k, _, v = part.partition('=')
                    kv[k.strip()] = v.strip()
                out.setdefault(kv.get('property'), []).append((kv.get('rule'), kv.get('inst'), what.strip()))
    except OSError:
        pass
    return out


def unit_sel(units):
    if units is None:
        return None
    return lambda u: any(u.endswith(x) for x in units)


def run_check(pid, tier):
    t0 = time.time()
    p = PROPS[pid]
    variants = ['release'] if tier == 'quick' else list(p.variants)
    known = load_known().get(pid, [])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    viols, obs, analysed, units, errs, graphs, nodes = [], [], set(), set(), [], 0, 0
    for v in variants:
        P = PR.load(unit_sel(p.units), v)
        units |= {os.path.relpath(u, X.REPO) if u.startswith(X.REPO) else u.replace(VERIF + '/', 'verif:') for u in P.units}
        errs += P.errs
        if p.units and len(P.units) < len(p.units):
            missing = [x for x in p.units if not any(u.endswith(x) for u in P.units)]
            raise Broken('translation units missing or unparsable: %s %s' % (missing, P.errs[:2]))
        c = Ctx(pid, P, tier, v)
        p.fn(c)
        obs += c.obs
        analysed |= c.analysed
        graphs += c.graphs
        nodes += c.nodes
        viols += c.viol
    if not obs:
        raise Broken('no obligation was generated')
    # de-duplicate
    uniq = {}
    for v in viols:
        uniq.setdefault((v['rule'], v['inst']), v)
    listed, fresh = [], []
    for k, v in sorted(uniq.items()):
        hit = next((w for (r, i, w) in known if r == k[0] and i == k[1]), None)
        (listed if hit else fresh).append((v, hit))
    byrule = {}
    for r, i, ok in obs:
        a = byrule.setdefault(r, [0, 0])
        a[0] += 1
        a[1] += ok
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', pid + '.report.json')
    with open(rep, 'w') as f:
        json.dump([dict(v, known=h) for v, h in fresh + listed], f, indent=1, default=str)
    samples = sorted({'%s: %s' % (r, i) for r, i, ok in obs})
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=dict(explanation='Static analysis of /repo\'s current sources: %d translation units parsed, %d functions analysed (%d event graphs, %d events), '
                            '%d rule obligations generated, %d discharged, %d violated (%d listed as known findings).'
                            % (len(units), len(analysed), graphs, nodes, len(obs), sum(1 for o in obs if o[2]), len(uniq), len(listed)),
                            obligations=len(obs), discharged=sum(1 for o in obs if o[2]),
                            rules={r: dict(instances=a[0], held=a[1]) for r, a in sorted(byrule.items())},
                            units=sorted(units), functions=sorted(analysed)[:400], samples=samples[:60], variants=variants, parse_errors=errs[:5],
                            trusted_base=['clang 18 front end (type checking, name resolution, template instantiation)', 'the extractor and event-graph engine in /verif',
                                          'stub headers for the FairLogger and PicoSHA2 dependencies, which are not installed']),
              assumptions=['the rule tables in /verif/engine/rules_*.py encode the confirmed instances of this code base',
                           'code is analysed in the configuration(s) %s' % ', '.join(variants)],
              wall_s=round(time.time() - t0, 3), violations=len(fresh))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations (%s), %d violated, %.1fs' % (pid, len(obs), ', '.join('%s %d/%d' % (r, a[1], a[0]) for r, a in sorted(byrule.items())), len(uniq), time.time() - t0))
    for v, h in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, h))
    for v, _ in fresh:
        print('  [%s] %s' % (v['rule'], v['inst']))
        print('      at %s: %s' % (v['where'], v['msg']))
        if v['trace']:
            print('      path: ' + ' -> '.join(v['trace']))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0


def main(argv):
    from . import rules  # registers all
    if len(argv) < 2:
        print('usage: check.py <property|all> [quick|thorough]')
        return 2
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if pid == 'all':
        rc = 0
        for i in sorted(PROPS):
            try:
                rc = max(rc, run_check(i, tier))
            except Exception as e:
                traceback.print_exc()
                print('ERROR', i, e)
                rc = 2
        return rc
    if pid not in PROPS:
        print('unknown property', pid)
        return 2
    try:
        return run_check(pid, tier)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
