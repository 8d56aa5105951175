#!/usr/bin/env python3
"""Try the checks against small changes: tools/mut.py FILE.py [NAME...]
FILE defines M = [(name, 'C01 C02', file, old, new), ...]; several edits: file/old/new may be repeated.
Works on scratch copies of /repo under /tmp/mut, never on /repo."""
import os, subprocess, sys, shutil, importlib.util, multiprocessing, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 3


def setup(i):
    d = '/tmp/mut/%d' % i
    if not os.path.exists(d + '/build'):
        os.makedirs(d, exist_ok=True)
        subprocess.check_call(['cp', '-a', V + '/build', d + '/build'])
    return d


def one(args):
    m, test = args
    i = multiprocessing.current_process()._identity[0] % N
    d = setup(i)
    r = d + '/repo'
    os.makedirs(r, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', r + '/'] if shutil.which('rsync') else ['bash', '-c', 'cd /repo && find %s -mindepth 1 -maxdepth 1 -not -name target -exec rm -rf {} + ; cp -a Cargo.toml Cargo.lock src %s/' % (r, r)])
    name, props = m[0], m[1].split()
    eds = m[2:]
    for k in range(0, len(eds), 3):
        p = r + '/' + eds[k]
        s = open(p).read()
        if eds[k + 1] not in s:
            return name, 'PATTERN NOT FOUND: ' + eds[k + 1][:60]
        s = s.replace(eds[k + 1], eds[k + 2], 1)
        open(p, 'w').write(s)
    out = []
    env = dict(os.environ, PA_REPO=r, PA_BUILD=d + '/build', PA_PROCS='3', PA_EVIDENCE=d + '/evidence', RUST_BACKTRACE='0')
    for p in props:
        q = subprocess.run([V + '/check', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = q.stdout.decode('utf8', 'replace')
        if q.returncode == 1 and 'VIOLATION property=' in t:
            out.append('%s CAUGHT %s' % (p, ' '.join(sorted(set(re.findall(r'\[rule ([^\]]*)\]', t))))[:150]))
        elif q.returncode == 0:
            out.append('%s %s' % (p, 'UNDECIDED ' + t[t.find('UNDECIDED'):][:160].replace('\n', ' ') if 'UNDECIDED' in t else 'quiet'))
        else:
            out.append('%s rc=%d %s' % (p, q.returncode, t[-400:]))
    return name, '; '.join(out)


if __name__ == '__main__':
    sp = importlib.util.spec_from_file_location('m', sys.argv[1])
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    M = [m for m in mod.M if len(sys.argv) < 3 or any(a in m[0] for a in sys.argv[2:])]
    with multiprocessing.Pool(N) as p:
        for n, r in p.imap(one, [(m, 0) for m in M]):
            print('%-40s %s' % (n, r), flush=True)
