#!/usr/bin/env python3
"""Makes the planted bugs of /verif/seeded from tools/bugs.py: applies each edit to a scratch copy
of /repo, confirms that it builds, that the tests pass, that the demonstration passes on the
unchanged tree and fails on the changed one, and writes patch.diff, demo.sh, main.rs,
expected.txt and meta.json.  Not used by any check."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = '/verif'
sys.path.insert(0, V + '/tools')
import bugs

DEMO = r'''#!/bin/bash
# Builds the small program main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/demo/src" && cp "$here/main.rs" "$w/demo/src/main.rs" && cp "$here/expected.txt" "$w/demo/src/" || exit 2
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/demo/Cargo.lock"
cat > "$w/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
satellite = { path = "$repo" }
chrono = "0.4"
[workspace]
T
export CARGO_TARGET_DIR="$w/target"
if ! (cd "$w/demo" && cargo build --offline -q >"$w/log" 2>&1); then
  rm -f -- "$w/demo/Cargo.lock"
  (cd "$w/demo" && cargo build --offline -q >"$w/log" 2>&1) || { cat "$w/log"; exit 3; }
fi
timeout 60 "$w/target/debug/demo" "$@"
'''

def sh(cmd, cwd, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def make(b, force=False):
    d = '%s/seeded/%s' % (V, b['id'])
    if os.path.exists(d + '/meta.json') and not force:
        return 'kept'
    w = tempfile.mkdtemp(prefix='bug_', dir='/tmp')
    try:
        sh('cp -a /repo %s/repo' % w, '/')
        R = w + '/repo'
        sh('git checkout -q -- . ', R)
        out = w + '/out'; os.makedirs(out)
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        src = (bugs.PRELUDE + 'fn values() -> Vec<f64> {\n    let mut v: Vec<f64> = Vec::new();\n' + b['demo'] + '\n    v\n}\n').replace('@TOL@', b.get('tol', '1e-7'))
        open(out + '/main.rs', 'w').write(src)
        open(out + '/expected.txt', 'w').write('')
        rc, o = sh('bash %s/demo.sh record' % out, R)
        if rc != 0: return 'record failed: ' + o[-1500:]
        open(out + '/expected.txt', 'w').write(o)
        rc, o = sh('bash %s/demo.sh' % out, R)
        if rc != 0: return 'demo fails on unchanged tree: ' + o[-800:]
        for f, old, new in b['edits']:
            p = R + '/src/' + f; t = open(p).read()
            if t.count(old) != 1: return 'edit: %d occurrences of %r' % (t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        rc, o = sh('git diff', R)
        open(out + '/patch.diff', 'w').write(o)
        rc, o = sh('CARGO_TARGET_DIR=%s/t cargo test --offline 2>&1' % w, R)
        if 'test result: ok. 20 passed' not in o:
            return 'tests: ' + '\n'.join(l for l in o.splitlines() if l.startswith('error') or 'FAILED' in l or 'panicked' in l)[:1500]
        rc, o = sh('bash %s/demo.sh' % out, R)
        if rc == 0: return 'demo passes with the bug'
        if rc == 3: return 'demo does not build: ' + o[-800:]
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        if os.path.exists(d): shutil.rmtree(d)
        shutil.copytree(out, d)
        return 'made (rc %d: %s)' % (rc, o.strip()[:160])
    finally:
        shutil.rmtree(w)

if __name__ == '__main__':
    want = [a for a in sys.argv[1:] if a != '-f']
    for b in bugs.BUGS:
        if want and b['id'] not in want: continue
        print(b['id'], b['property'], make(b, '-f' in sys.argv), flush=True)
