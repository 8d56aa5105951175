#!/usr/bin/env python3
"""Build and confirm planted bugs: tools/seed.py FILE.py [NAME...]
FILE defines S = [dict(id, prop, file, old, new | edits=[(file, old, new)...], needs, breaks, demo), ...].
Each one is confirmed in a scratch copy under /tmp/seed (builds, stable tests pass, the demonstration
passes without and fails with the change) and then written to /verif/seeded/<id>/."""
import importlib.util, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/seed/repo'
PRE = '''#!/bin/bash
# run in the repository after a build; 0 = behaves, 1 = does not
PA2=${CARGO_TARGET_DIR:-$PWD/target}/debug/pa2
W=$(mktemp -d) || exit 2
trap 'rm -rf -- "$W"' EXIT
cd "$W" || exit 2
fail() { echo "DEMO: $1"; exit 1; }
'''
# a demonstration in Rust: "rs <<'X' ... X" builds it against the library that was just built and runs it
RS = r'''T=$(dirname "$PA2")
rs() {
    { cat "$SELF/demo_head.rs"; cat; } > d.rs
    for a in "$T"/deps/libasync_std-*.rlib; do
        rustc --edition 2021 -Awarnings -o d d.rs --extern pipeawesome2="$T/libpipeawesome2.rlib" --extern async_std="$a" -L dependency="$T/deps" 2> err && break
    done
    [ -x d ] || { head -c 2000 err; exit 3; }
    timeout -k 1 60 ./d > d.out 2>&1 || fail "$? $(tail -3 d.out | head -c 300)"
}
'''
HEAD = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo_head.rs')).read()


def write_demo(d, s):
    t = s['demo'].strip('\n')
    pre = PRE
    if '\nrs <<' in '\n' + t:
        pre = PRE.replace('W=$(mktemp', 'SELF=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp') + RS
        open(d + '/demo_head.rs', 'w').write(HEAD)
    open(d + '/demo.sh', 'w').write(pre + t + '\nexit 0\n')


def sh(cmd, **k):
    return subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def env():
    return dict(os.environ, CARGO_TARGET_DIR=R + '/target')


def prepare():
    os.makedirs('/tmp/seed', exist_ok=True)
    if not os.path.exists(R):
        sh('cp -a /repo ' + R)
    sh('cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % R)
    for s in ('build', 'test', 'env'):
        t = open('/opt/vp/%s.sh' % s).read().replace('/repo', R).replace('LOGS=/opt/vp/logs', 'LOGS=/tmp/seed/logs').replace('HARNESS=/opt/vp/harness', 'HARNESS=/tmp/seed/harness').replace('/opt/vp/env.sh', '/tmp/seed/env.sh')
        open('/tmp/seed/%s.sh' % s, 'w').write(t)


def build():
    r = sh('bash /tmp/seed/build.sh')
    return r.returncode == 0, r.stdout.decode()[-1500:]


def demo(d):
    try:
        r = sh('cd %s && unset CARGO_TARGET_DIR; timeout 120 bash %s' % (R, d))
    except Exception as x:
        return 99, str(x)
    return r.returncode, r.stdout.decode('utf8', 'replace')[-300:]


def main():
    sp = importlib.util.spec_from_file_location('m', sys.argv[1])
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    S = [s for s in mod.S if len(sys.argv) < 3 or any(a in s['id'] for a in sys.argv[2:])]
    prepare()
    okk, out = build()
    assert okk, out
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    base = {}
    for s in S:
        d = '/tmp/seed/demo_%s' % s['id']
        os.makedirs(d, exist_ok=True)
        write_demo(d, s)
        base[s['id']] = demo(d + '/demo.sh')
    for s in S:
        d = '/tmp/seed/demo_%s' % s['id']
        sh('cd %s && git checkout -q -- .' % R)
        if base[s['id']][0] != 0:
            print('%-28s demo fails on the unchanged tree: %s' % (s['id'], base[s['id']]))
            continue
        bad = None
        for f, o, n in s.get('edits') or [(s['file'], s['old'], s['new'])]:
            p = R + '/' + f
            t = open(p).read()
            if o not in t:
                bad = 'pattern not found ' + o[:60]
                break
            open(p, 'w').write(t.replace(o, n, 1))
        if bad:
            print('%-28s %s' % (s['id'], bad))
            continue
        diff = sh('cd %s && git diff' % R).stdout.decode()
        okk, out = build()
        if not okk:
            print('%-28s does not build\n%s' % (s['id'], out))
            continue
        rc, o = demo(d + '/demo.sh')
        if rc == 0:
            print('%-28s demo does not notice %s' % (s['id'], o[-300:]))
            continue
        sh('rm -f /tmp/seed/out.json; timeout -k 2 60 bash /tmp/seed/test.sh /tmp/seed/out.json; pkill -f "^pa2 process"')
        if not os.path.exists('/tmp/seed/out.json'):
            print('%-28s the tests hang' % s['id'])
            continue
        res = json.load(open('/tmp/seed/out.json'))
        passed = set(res.get('passed') or [k for k, v in (res.get('tests') or res).items() if v in ('pass', 'passed', True)])
        if stable - passed:
            print('%-28s breaks stable tests %s' % (s['id'], sorted(stable - passed)[:4]))
            continue
        q = V + '/seeded/' + s['id']
        os.makedirs(q, exist_ok=True)
        open(q + '/patch.diff', 'w').write(diff)
        open(q + '/demo.sh', 'w').write(open(d + '/demo.sh').read())
        os.chmod(q + '/demo.sh', 0o755)
        if os.path.exists(d + '/demo_head.rs'):
            open(q + '/demo_head.rs', 'w').write(open(d + '/demo_head.rs').read())
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(q + '/meta.json', 'w'), indent=1)
        print('%-28s ok (%s)' % (s['id'], o.strip()[:100]))
    sh('cd %s && git checkout -q -- .' % R)


main()
