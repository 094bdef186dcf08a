"""Build the MIR driver when needed and dump the type-checked program of the repository."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True,
                          check=True).stdout.strip()


def driver():
    """Path of the driver binary, built from /verif/driver when it is missing or older than its source."""
    src = os.path.join(HERE, 'driver')
    exe = os.path.join(src, 'target', 'release', 'mirdump')
    new = max(os.path.getmtime(os.path.join(src, f)) for f in ('src/main.rs', 'Cargo.toml'))
    if os.path.exists(exe) and os.path.getmtime(exe) >= new:
        return exe
    r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=src, capture_output=True,
                       text=True)
    if r.returncode != 0:
        raise BuildError('the MIR driver does not build:\n' + r.stderr[-2000:])
    os.utime(exe)
    return exe


def dump(repo=None):
    """The program of `repo` as dumped by the driver (a fresh target directory on every run)."""
    repo = repo or REPO
    exe = driver()
    tmp = tempfile.mkdtemp(prefix='mirdump.')
    try:
        out = os.path.join(tmp, 'mir.json')
        work = repo
        if not os.path.exists(os.path.join(repo, 'Cargo.lock')):
            # cargo would write a lock file into the tree: build from a link farm instead
            work = os.path.join(tmp, 'tree')
            os.mkdir(work)
            for f in os.listdir(repo):
                if f not in ('.git', 'target', 'Cargo.lock'):
                    os.symlink(os.path.join(repo, f), os.path.join(work, f))
        env = dict(os.environ)
        env.update(RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=out, MIRDUMP_CRATE='satellite',
                   CARGO_TARGET_DIR=os.path.join(tmp, 'target'), LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'),
                   CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=work, env=env,
                           capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise BuildError('the library does not build:\n' + r.stderr[-3000:])
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    print(driver())
