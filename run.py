#!/usr/bin/env python3
"""run.py <property> quick|thorough        decide one property on /repo's current tree
   run.py --replay <replay file>            run one reported violation again
   run.py --all quick|thorough              everything in the table
   run.py --build                           build every variant (setup)"""
import json, os, signal, subprocess, sys, time, fcntl, hashlib, re
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SONIVOX_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
sys.path.insert(0, ROOT)
from checks.table import CHECKS

UB = 'bounds,null,integer-divide-by-zero,shift-exponent,unreachable,return,vla-bound,alignment'
VARIANTS = {
    # name: (cc, cflags, asan?, cmake options)
    'opt':   ('gcc', '-O2 -g1', False, []),
    'asan':  ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=address,%s -fno-sanitize-recover=all' % UB, True, []),
    'o0':    ('gcc', '-O0 -g1', False, []),
    'clang': ('clang', '-O2 -g1', False, []),
    's8':    ('gcc', '-O2 -g1', False, ['-DUSE_16BITS_SAMPLES=OFF']),
    'r22':   ('gcc', '-O2 -g1', False, ['-DUSE_44KHZ=OFF']),
    'r22s8': ('gcc', '-O2 -g1', False, ['-DUSE_44KHZ=OFF', '-DUSE_16BITS_SAMPLES=OFF']),
    'v8':    ('gcc', '-O2 -g1', False, ['-DMAX_VOICES=8']),
    'v8asan': ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=address,%s -fno-sanitize-recover=all' % UB, True, ['-DMAX_VOICES=8']),
}
# the formats CMakeLists.txt lists but leaves commented out (sources and definitions), switched on
FMT_DEFS = '-D_IMELODY_PARSER -D_RTTTL_PARSER -D_OTA_PARSER -D_XMF_PARSER -D_WAVE_PARSER -D_IMA_DECODER -DJET_INTERFACE'
FMT_SRC = ['eas_imelody', 'eas_imelodydata', 'eas_rtttl', 'eas_rtttldata', 'eas_ota', 'eas_otadata', 'eas_xmf', 'eas_xmfdata', 'eas_wavefile', 'eas_wavefiledata', 'eas_imaadpcm', 'eas_ima_tables', 'jet']
for v in ('opt', 'asan'):
    cc, fl, asan, opts = VARIANTS[v]; VARIANTS['fmt' + ('' if v == 'opt' else v)] = (cc, fl + ' ' + FMT_DEFS, asan, opts)

def lib_defines(cm):
    m = re.search(r'build [^\n]*eas_data\.c\.o:.*?\n(?:  [^\n]*\n)*?  DEFINES = ([^\n]*)', open(os.path.join(cm, 'build.ninja')).read())
    return [x.replace('\\"', '"') for x in m.group(1).split()]

def sh(cmd, log, **kw):
    with open(log, 'ab') as f:
        f.write(('\n$ ' + ' '.join(cmd) + '\n').encode()); f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        sys.stderr.write('run.py: command failed: %s (log %s)\n' % (' '.join(cmd), log))
        sys.stderr.write(open(log, errors='replace').read()[-3000:])
        raise SystemExit(2)

def build_variant(v):
    cc, cflags, asan, opts = VARIANTS[v]
    d = os.path.join(BUILD, v); os.makedirs(d, exist_ok=True)
    log = os.path.join(d, 'build.log'); open(log, 'w').close()
    lock = open(os.path.join(d, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    cm = os.path.join(d, 'cm')
    cxx = 'clang++' if cc == 'clang' else 'g++'
    cmd = ['cmake', '-G', 'Ninja', '-S', REPO, '-B', cm, '-DBUILD_TESTING=OFF', '-DBUILD_EXAMPLE=OFF', '-DBUILD_SONIVOX_SHARED=OFF',
           '-DBUILD_SONIVOX_STATIC=ON', '-DCMAKE_POSITION_INDEPENDENT_CODE=ON', '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_C_COMPILER=' + cc,
           '-DCMAKE_CXX_COMPILER=' + cxx, '-DCMAKE_C_FLAGS=-w -fPIC ' + cflags] + opts
    stamp = os.path.join(d, 'configured')
    if not os.path.exists(os.path.join(cm, 'build.ninja')) or not os.path.exists(stamp) or open(stamp).read() != ' '.join(cmd):
        sh(cmd, log); open(stamp, 'w').write(' '.join(cmd))
    sh(['ninja', '-C', cm, 'sonivox-static'], log)
    lib = os.path.join(cm, 'libsonivox-static.a')
    if not os.path.exists(lib):
        lib = next(os.path.join(p, f) for p, _, fs in os.walk(cm) for f in fs if f.endswith('.a') and 'sonivox' in f)
    so = os.path.join(d, 'libsut.so'); more = []
    if v.startswith('fmt'):
        A = os.path.join(REPO, 'arm-wt-22k'); have = subprocess.run(['ar', 't', lib], capture_output=True, text=True).stdout.split()
        for n in FMT_SRC:
            if n + '.c.o' in have: continue
            o = os.path.join(d, n + '.o'); more.append(o)
            sh([cc] + cflags.split() + ['-w', '-fPIC', '-DALOGD(...)=', '-DALOGV(...)='] + lib_defines(cm) + ['-I' + os.path.join(A, 'lib_src'), '-I' + os.path.join(A, 'host_src'), '-I' + os.path.join(cm, 'libsonivox'), '-I' + os.path.join(REPO, 'fakes'), '-c', os.path.join(A, 'lib_src', n + '.c'), '-o', o], log)
    sh([cc, '-shared', '-o', so] + more + ['-Wl,--whole-archive', lib, '-Wl,--no-whole-archive', '-Wl,-z,now', '-Wl,-z,norelro', '-Wl,-Bsymbolic',
        '-Wl,--wrap=malloc', '-Wl,--wrap=free', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc', '-Wl,--wrap=strdup', '-lm', '-g'], log)
    lock.close()
    return d, cm

def build_check(v, prop, src):
    cc, cflags, asan, opts = VARIANTS[v]
    d, cm = build_variant(v)
    log = os.path.join(d, 'check-%s.log' % prop); open(log, 'w').close()
    out = os.path.join(d, prop); os.makedirs(out, exist_ok=True)
    inc = ['-I' + os.path.join(ROOT, 'mc'), '-I' + os.path.join(ROOT, 'checks'), '-I' + os.path.join(cm, 'libsonivox'),
           '-I' + os.path.join(REPO, 'arm-wt-22k/host_src'), '-I' + os.path.join(REPO, 'arm-wt-22k/lib_src'), '-I' + os.path.join(REPO, 'fakes'), '-I' + os.path.join(REPO, 'example')]
    san = [f for f in cflags.split() if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')]
    defs = ['-DMC_VARIANT_%s' % v, '-DMC_VARIANT="%s"' % v] + (['-DMC_ASAN'] if asan else [])
    if CHECKS.get(prop, {}).get('internal'):        # the check builds structures the library's headers describe: same configuration
        inc += lib_defines(cm)
    if v.startswith('fmt'): defs += FMT_DEFS.split()
    so = os.path.join(out, 'libcheck.so')
    sh([cc, '-shared', '-fPIC', '-O2', '-g', '-Wall', '-Wno-unused-function', '-Wno-unused-variable'] + san + defs + inc + ['-o', so, os.path.join(ROOT, 'checks', src),
        os.path.join(ROOT, 'mc', 'sut.c'), '-L' + d, '-lsut', '-Wl,-rpath,' + d, '-Wl,-z,now', '-Wl,-z,norelro', '-lm'], log)
    mo = os.path.join(out, 'mc.o')
    sh([cc, '-O2', '-g', '-Wall', '-Wno-unused-function', '-c'] + defs + inc + ['-o', mo, os.path.join(ROOT, 'mc', 'mc.c')], log)
    exe = os.path.join(out, 'check')
    sh([cc] + san + ['-rdynamic', '-o', exe, mo, so, '-L' + d, '-lsut', '-Wl,-rpath,' + d, '-Wl,-rpath,' + out, '-Wl,-z,now', '-lm', '-ldl'], log)
    return exe

FELL = (4, -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL, -signal.SIGVTALRM)
def again(cmd, code):
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, errors='replace')
    return r.returncode == code, [l for l in r.stderr.split('\n') if l.strip()][-12:]
def fell(prop, tier, v, cmd, code):
    same, tail = again(cmd, code)
    if not same: sys.stderr.write('run.py: check exited with %d, but not again\n' % code); return False
    d = os.path.join(ROOT, 'replays'); os.makedirs(d, exist_ok=True); path = os.path.join(d, '%s-setup-%s.json' % (prop, v))
    json.dump({'property': prop, 'variant': v, 'tier': tier, 'kind': 'setup', 'code': code, 'message': tail}, open(path, 'w'))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    print('  space=setup key=%s\n  %s' % ('failed' if code == 4 else 'hang' if code == -signal.SIGVTALRM else 'crash', '\n  '.join(tail[-4:]))); sys.stdout.flush()
    return True

def run_property(prop, tier):
    c = CHECKS[prop]; t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    parts = []; rc = 0
    runs = c[tier] if tier in c else c['quick']
    for v in runs:
        exe = build_check(v, prop, c['src'])
        pf = os.path.join(BUILD, v, prop, 'partial.json')
        if os.path.exists(pf): os.remove(pf)
        r = subprocess.run([exe, tier, '--root', ROOT, '--variant', v, '--partial', pf] + c.get('args', []))
        if os.path.exists(pf): parts.append(json.load(open(pf)))
        if r.returncode == 1: rc = 1; break
        if r.returncode in FELL:            # before or between the enumerated spaces: what every execution begins with went wrong
            rc = 1 if fell(prop, tier, v, [exe, tier, '--root', ROOT, '--variant', v] + c.get('args', []), r.returncode) else 2; break
        if r.returncode != 0:
            sys.stderr.write('run.py: check exited with %d\n' % r.returncode); rc = 2; break
    write_evidence(prop, tier, parts, time.time() - t0)
    return rc

def write_evidence(prop, tier, parts, wall):
    tot = lambda k: sum(p[k] for p in parts)
    counters = {}
    for p in parts:
        for k, n in p['counters'].items(): counters[k] = counters.get(k, 0) + n
    # cases (executions of mc_enumerate) are one trace each; steps are the transitions inside them
    states = tot('states') + tot('outcomes')
    trans = tot('transitions') + max(tot('steps'), 0)
    execs = tot('execs') + tot('transitions')
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': execs,
                       'explanation': 'every execution ran on the real library; states = distinct implementation+model states hashed by the explorer plus distinct outcomes of enumerated cases; '
                                      'transitions = operations executed; traces = executions (explored edges plus enumerated cases) compared with the oracle on the real code',
                       'exhaustive': True, 'enumerated_cases': tot('execs'), 'explored_states': tot('states'), 'explored_transitions': tot('transitions'),
                       'distinct_outcomes': tot('outcomes'), 'out_of_scope_cases': tot('skipped'), 'deduplicated': tot('pruned'), 'unreproduced_reports': tot('unreproduced'),
                       'variants': [{'variant': p['variant'], 'wall_s': p['wall_s'], 'cases': p['execs'], 'transitions': p['transitions']} for p in parts],
                       'counters': counters, 'bounds': sorted({b for p in parts for b in p['bounds']}),
                       'samples': [s for p in parts for s in p['samples']][:24], 'known_findings_hit': [k for p in parts for k in p['known']]},
          'assumptions': sorted({a for p in parts for a in p['assumptions']}), 'wall_s': round(wall, 2), 'violations': tot('violations')}
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

def main():
    a = sys.argv[1:]
    if a and a[0] == '--build':
        for v in (a[1:] or ['opt', 'asan']): build_variant(v)
        return 0
    if a and a[0] == '--replay':
        r = json.load(open(a[1])); exe = build_check(r['variant'], r['property'], CHECKS[r['property']]['src'])
        if r['kind'] == 'setup':
            same, tail = again([exe, r['tier'], '--root', ROOT, '--variant', r['variant']] + CHECKS[r['property']].get('args', []), r['code'])
            if same: print('VIOLATION property=%s replay=%s\n  %s' % (r['property'], a[1], '\n  '.join(tail)))
            else: print('replay: the setup passes')
            return 1 if same else 0
        return subprocess.run([exe, '--root', ROOT, '--replay', a[1]] + CHECKS[r['property']].get('args', [])).returncode
    if a and a[0] == '--all':
        bad = 0
        for p in sorted(CHECKS):
            t = time.time(); rc = run_property(p, a[1] if len(a) > 1 else 'quick'); print('%s rc=%d %.1fs' % (p, rc, time.time() - t), flush=True); bad |= rc
        return 1 if bad else 0
    if len(a) != 2 or a[0] not in CHECKS: print(__doc__); return 2
    return run_property(a[0], a[1])

if __name__ == '__main__':
    sys.exit(main())
