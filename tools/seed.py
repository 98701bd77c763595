#!/usr/bin/env python3
"""seed.py DEFS.py [ids]: writes /verif/seeded/<id>/ from definitions and confirms each in a scratch copy of /repo.
A definition: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C text[, cflags])."""
import sys, os, subprocess, shutil, json, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/seedwt'
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
gcc -O1 -w %s-I_build/libsonivox -Iarm-wt-22k/host_src -Iarm-wt-22k/include -Iarm-wt-22k/lib_src "$d/demo.c" %s -lm -lpthread -o "$t/demo" || exit 3
timeout 100 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    r = sh('CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/dev/null && ninja -C _build -j8', cwd=W)
    return r.returncode == 0, r.stdout
def tests():
    os.makedirs(W + '/_build/vp-tmp', exist_ok=True)
    r = sh('TEMP=%s/_build/vp-tmp ctest --test-dir _build -j1 --timeout 300' % W, cwd=W)
    return r.returncode == 0 and '100% tests passed' in r.stdout
def prep():
    shutil.rmtree(W, ignore_errors=True); sh('git -C /repo worktree prune'); sh('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (W, W, W))
    assert build()[0]
def one(d):
    o = V + '/seeded/' + d['id']; os.makedirs(o, exist_ok=True)
    sh('git checkout -q -- .', cwd=W)
    for f, a, b in d['edits']:
        p = W + '/arm-wt-22k/' + f; s = open(p, newline='').read(); crlf = '\r\n' in s
        if crlf: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        if s.count(a) != 1: return 'edit matches %d times: %r' % (s.count(a), a)
        open(p, 'w', newline='').write(s.replace(a, b))
    # generated with binary-safe diff
    r = subprocess.run('git diff', shell=True, cwd=W, stdout=subprocess.PIPE); open(o + '/patch.diff', 'wb').write(r.stdout)
    if 'demo' in d:
        open(o + '/demo.c', 'w').write('#include "d.h"\n' + d['demo']); shutil.copy(V + '/tools/seed_d.h', o + '/d.h')
        asan = d.get('asan') or d.get('fmt'); san = '-fsanitize=address -fno-sanitize-recover=all ' if d.get('asan') else ''
        fd = "-D_IMELODY_PARSER -D_RTTTL_PARSER -D_OTA_PARSER -D_XMF_PARSER -D_WAVE_PARSER -D_IMA_DECODER -DJET_INTERFACE '-DALOGD(...)=' '-DALOGV(...)=' " if d.get('fmt') else ''; fs = ' $(ls arm-wt-22k/lib_src/{eas_rtttl,eas_imelody,eas_ota,eas_xmf,eas_wavefile}{,data}.c arm-wt-22k/lib_src/{jet,eas_imaadpcm,eas_ima_tables}.c)' if d.get('fmt') else ''
        f = ('-g ' + san + fd + '$(ninja -C _build -t commands libsonivox-static.a | grep -oE -- "( -D[^ ]*)|( -I[^ ]*)" | sort -u) ', '$(ninja -C _build -t commands libsonivox-static.a | grep -o -- "-c [^ ]*[.]c$" | cut -c4- | sort -u)' + fs) if asan else ('', '_build/libsonivox-static.a')
        open(o + '/demo.sh', 'w').write((DEMO % f).replace('gcc', 'export ASAN_OPTIONS=detect_leaks=0\ngcc') if asan else DEMO % f)
        os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(o + '/meta.json', 'w'), indent=1)
    ok, out = build()
    if not ok: return 'does not build: ' + out[-600:]
    if not tests(): return 'existing tests fail'
    r1 = sh('bash %s/demo.sh' % o, cwd=W)
    sh('git checkout -q -- .', cwd=W); assert build()[0]
    r0 = sh('bash %s/demo.sh' % o, cwd=W)
    if r0.returncode: return 'demo fails without: %d %s' % (r0.returncode, r0.stdout[-500:])
    if not r1.returncode: return 'demo passes with: ' + r1.stdout[-300:]
    return 'good (%d: %s)' % (r1.returncode, r1.stdout.strip()[-100:])
def caught(d):
    p = V + '/seeded/%s/patch.diff' % d['id']; props = [d['property']] + d.get('also', [])
    if sh('git -C /repo apply %s' % p).returncode: return 'patch does not apply'
    try:
        res = []
        for c in props:
            r = sh('timeout 900 python3 run.py %s quick' % c, cwd=V); v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            key = [l for l in r.stdout.split('\n') if 'key=' in l]
            res.append('%s:%s' % (c, 'caught ' + (key[0].strip() if key else '') if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode))
        return ' '.join(res)
    finally: sh('git -C /repo checkout -- .')
if __name__ == '__main__':
    defs = runpy.run_path(sys.argv[1])['D']; ids = sys.argv[2:]
    prep()
    for d in defs:
        if ids and d['id'] not in ids: continue
        r = one(d); print(d['id'], '-', r, flush=True)
        if r.startswith('good'): print('   ', caught(d), flush=True)
    shutil.rmtree(W, ignore_errors=True)
