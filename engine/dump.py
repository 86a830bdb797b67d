"""python3 -m engine.dump [-e] [-w] <qualified function> [read fields]: print an event graph (debugging aid)"""
import sys, re
sys.setrecursionlimit(30000)
from . import prog as PR, flow as FL, core


def shorten(x):
    x = str(x)
    for _ in range(6):
        x = re.sub(r'<[^<>]*>', '', x)
    return x.replace('fair::mq::', '')[:90]


def main(argv):
    exc = '-e' in argv
    argv = [a for a in argv if not a.startswith('-')]
    q, reads = argv[0], argv[1:]
    P = PR.load()
    for f in P.fn(q):
        if 'verif' in f.rel():
            continue
        c = core.Ctx('X', P, 'quick', 'release')
        g = c.graph(f, exc=exc, reads=frozenset(reads) if reads else None)
        print('==', f, shorten(f.ta), len(g.nodes))
        for n in g.nodes:
            if n.id not in g.live or n.kind in ('nop', 'unwind', 'aload', 'copied', 'lamdef'):
                continue
            if n.d.get('mac') == 'LOG' or 'Logger' in str(n.d.get('t', '')):
                continue
            d = {k: (FL.show(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else ([FL.show(x) for x in v] if k == 'args' else v)) for k, v in n.d.items()
                 if v not in (None, False, [], '') and k not in ('pt', 'term', 'fid', 'cls', 'stmt', 'virt', 'ta', 'fn', 'call', 'const', 'ne', 'callee', 'written', 'name', 'cm')}
            print(n.id, n.kind, n.line, ' '.join('%s=%s' % (k, shorten(v)) for k, v in d.items()), '->', [(m.id, l) if l is not None else m.id for m, l in n.succ if l != 'exc' or exc])


main(sys.argv[1:])
