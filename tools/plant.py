#!/usr/bin/env python3
"""Plant helper (development only): plant.py SPEC.py  -- SPEC defines ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (C++ source), FLAGS.
Creates seeded/<ID>/ and validates it in a private mount namespace (scratch copy of /repo)."""
import sys, os, subprocess, json, shutil, runpy, re
V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def make(s):
    d = f'{V}/seeded/{s["ID"]}'
    os.makedirs(d, exist_ok=True)
    t = '/tmp/w/edit'
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    sh(f'cd {t} && git init -q && cp -a /repo/seq . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x')
    for f, o, n in s['EDITS']:
        p = f'{t}/seq/{f}'
        raw = open(p, newline='').read()
        crlf = '\r\n' in raw
        x = raw.replace('\r\n', '\n')
        rx = r'[ \t]*\n[ \t]*'.join(re.escape(l.strip()) for l in o.strip('\n').split('\n')) # indentation does not matter
        m = list(re.finditer(rx, x))
        if len(m) != 1: sys.exit(f'{s["ID"]}: {len(m)} matches in {f}: {o[:60]!r}')
        x = x[:m[0].start()] + n.strip() + x[m[0].end():]
        if crlf: x = x.replace('\n', '\r\n')
        open(p, 'w', newline='').write(x)
    r = subprocess.run('git diff', shell=True, cwd=t, capture_output=True)
    open(d + '/patch.diff', 'wb').write(r.stdout)
    open(d + '/demo.cpp', 'w').write(s['DEMO'])
    fl = s.get('FLAGS', '-O1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined')
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise (or when the program does not build)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf -- "$W"' EXIT
g++ -std=c++17 -g -w {fl} -I"$PWD" -I"$PWD/seq" -I"$PWD/seq/internal" "$D/demo.cpp" -o "$W/demo" -lpthread || exit 1
ASAN_OPTIONS=detect_leaks=${{LEAKS:-1}} timeout 120 "$W/demo"
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
def check(i, check_only=False):
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    sh(f'rsync -a --delete --exclude=_build /repo/ /tmp/w/repo/; rsync -a --delete --exclude=evidence --exclude=seeded {V}/ /tmp/w/verif/; mkdir -p /tmp/w/verif/evidence /tmp/w/verif/seeded /tmp/w/demo; rm -rf /tmp/w/demo/*; cp -a {d}/. /tmp/w/demo/')
    tests = '' if check_only else 'bash /opt/vp/test.sh /tmp/w/out.json >/tmp/w/test.log 2>&1;'
    r = sh(f'''cat > /tmp/w/run.sh <<'X'
mount --bind /tmp/w/repo /repo; mount --bind /tmp/w/verif /verif; cd /repo
bash /tmp/w/demo/demo.sh >/tmp/w/d0.log 2>&1; echo "demo clean rc=$?"
git apply /tmp/w/demo/patch.diff || echo APPLYFAIL; find seq -type f | xargs touch
bash /tmp/w/demo/demo.sh >/tmp/w/d1.log 2>&1; echo "demo bug rc=$?"
cd /verif; timeout 900 python3 run.py {prop} >/tmp/w/c.log 2>&1; echo "check rc=$?"; grep VIOLATION /tmp/w/c.log | head -2
cd /repo; {tests}
git checkout -q -- .
X
unshare -Urm bash /tmp/w/run.sh''')
    print(f'== {i} ({prop})\n' + r.stdout + r.stderr)
    if not check_only:
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        o = json.load(open('/tmp/w/out.json'))
        print('lost tests:', sorted(st - set(o['passed']))[:5])
if __name__ == '__main__':
    co = '-c' in sys.argv
    for a in [x for x in sys.argv[1:] if x != '-c']:
        if a.endswith('.py'):
            s = runpy.run_path(a)
            for e in s['BUGS']: make(e)
            if '-n' not in sys.argv:
                for e in s['BUGS']: check(e['ID'], co)
        elif a != '-n': check(a, co)
