"""Helper to plant a bug: python3 gen/mkseed.py <spec.py>; spec defines
SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=C++ source, srcs=[...extra repo sources], flags, needs, breaks, runs)]
Writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,stubs,meta.json}, checks demo on clean and patched copies and runs the check."""
import json, os, shutil, subprocess, sys
V = '/verif'
W = '/tmp/seedwork'

STUBNEED = True


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(W, ignore_errors=True)
        sh('git clone -q /repo %s' % W)
        okedit = True
        for f, a, b in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s['id'], 'EDIT NOT UNIQUE/FOUND', f, t.count(a), a[:60])
                okedit = False
                break
            open(p, 'w').write(t.replace(a, b))
        if not okedit:
            continue
        diff = sh('git -C %s diff' % W).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        shutil.rmtree(d + '/stubs', ignore_errors=True)
        shutil.copytree(V + '/stubs', d + '/stubs')
        srcs = ' '.join('"$R/%s"' % x for x in s.get('srcs', []))
        open(d + '/demo.sh', 'w').write('''#!/bin/sh
# exit 0: behaviour as documented; nonzero: property broken
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
FL="-std=c++17 -O1 -w -DBOOST_ERROR_CODE_HEADER_ONLY -DFAIRMQ_HAS_STD_FILESYSTEM=1 -DFAIRMQ_HAS_STD_PMR=1 %s -I$R -I$D/stubs"
for f in "$D/demo.cpp" %s; do
  g++ $FL -c "$f" -o "$T/$(echo "$f" | tr / _).o" || touch "$T/failed" &
done
wait
[ -e "$T/failed" ] && exit 98
g++ "$T"/*.o -o "$T/demo" -pthread %s || exit 98
cd "$T" || exit 97
i=0
while [ $i -lt %d ]; do
  timeout %d "$T/demo" || exit 1
  i=$((i+1))
done
exit 0
''' % (s.get('flags', ''), srcs, s.get('libs', ''), s.get('runs', 1), s.get('timeout', 60)))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        c = sh('sh %s/demo.sh' % d, cwd='/repo')
        b = sh('sh %s/demo.sh' % d, cwd=W)
        k = sh('FMQ_REPO=%s python3 check.py %s' % (W, s['prop']), cwd=V)
        print('%-28s clean=%d patched=%d check=%d %s' % (s['id'], c.returncode, b.returncode, k.returncode, 'OK' if (c.returncode == 0 and b.returncode not in (0, 98, 97, 99) and k.returncode == 1) else '<<<<<'))
        if c.returncode:
            print('   clean out:', (c.stdout + c.stderr)[-600:])
        if b.returncode in (0, 98, 97, 99):
            print('   patched out:', (b.stdout + b.stderr)[-600:])
        if k.returncode != 1:
            print('   check:', k.stdout[-500:], k.stderr[-300:])
        elif '-v' in sys.argv:
            print(k.stdout)
        if '--others' in sys.argv:
            o = sh('for i in $(python3 -c "import json;print(*[c[\'property\'] for c in json.load(open(\'/verif/MANIFEST.json\'))[\'checks\']])"); do FMQ_REPO=%s python3 check.py $i >/dev/null || echo $i; done' % W, cwd=V)
            print('   alarms:', o.stdout.split())
    shutil.rmtree(W, ignore_errors=True)


main(sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')])
