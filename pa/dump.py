"""Produce (or reuse) the MIR dump of /repo's current working tree."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PA_REPO', '/repo')
BUILD = os.environ.get('PA_BUILD', os.path.join(VERIF, 'build'))


def _files():
    out = []
    for base in (REPO,):
        for root, ds, fs in os.walk(os.path.join(base, 'src')):
            ds.sort()
            out += [os.path.join(root, f) for f in sorted(fs)]
        for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
            if os.path.exists(os.path.join(base, f)):
                out.append(os.path.join(base, f))
    for f in ('driver/src/main.rs', 'driver/Cargo.toml', 'bin/rustc-shim'):
        out.append(os.path.join(VERIF, f))
    return out


def source_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()


def run(cmd, env, cwd, what):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode('utf8', 'replace')[-6000:])
        raise SystemExit('%s failed' % what)


def ensure():
    """Path of a dump that describes the current tree; builds what is missing."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, 'dump.json')
        tag = os.path.join(BUILD, 'dump.hash')
        want = source_hash()
        if os.path.exists(out) and os.path.exists(tag) and open(tag).read() == want:
            return out, want, False
        env = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS')}
        e1 = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
        run(['cargo', '+nightly', 'build', '--offline', '--locked'], e1, os.path.join(VERIF, 'driver'), 'building the MIR extractor')
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], env=env).decode().strip()
        for d in glob.glob(os.path.join(BUILD, 'mir/debug/.fingerprint/pipeawesome2-*')):
            shutil.rmtree(d)
        if os.path.exists(out):
            os.remove(out)
        e2 = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, 'mir'), PA_NIGHTLY_SYSROOT=sysroot,
                  RUSTC=os.path.join(VERIF, 'bin/rustc-shim'), PA_DUMP=out,
                  LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), RUSTFLAGS='-Awarnings -Zalways-encode-mir',
                  RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, 'driver/debug/pa-mir-driver'))
        run(['cargo', '+stable', 'check', '--offline', '--bin', 'pa2'], e2, REPO, 'extracting the MIR of the repository')
        if not os.path.exists(out):
            raise SystemExit('no dump was written')
        with open(tag, 'w') as f:
            f.write(want)
        return out, want, True


if __name__ == '__main__':
    print(ensure())
