#!/usr/bin/env python3
"""The planted changes. `bugs.py [ID...]` makes each one in a scratch copy of /repo (/tmp/bug), confirms that it
compiles, passes the stable tests and that its demonstration tells the trees apart, and writes /verif/seeded/ID."""
import sys, os, subprocess, json, shutil, re
BUGS = {}


def bug(id, prop, needs, what, edits, body):
    assert id not in BUGS
    BUGS[id] = (prop, needs, what, edits, body)


W = '/tmp/bug'
T = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def make(id):
    prop, needs, what, edits, body = BUGS[id]
    if not os.path.exists(W):
        sh('cp', '-a', '/repo', W)
    sh('git', '-C', W, 'checkout', '--', '.')
    sh('git', '-C', W, 'pull', '-q', '/repo', 'HEAD')
    for f, old, new in edits:
        p = W + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit matches %d times: %s' % (s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = '/tmp/newbug-' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(sh('git', '-C', W, 'diff').stdout)
    for f in ('demo.sh', 'eval.rs', 'demo.lock'):
        shutil.copy(T + '/' + f, d)
    if 'fn main' not in body:
        body = 'fn main() {\n' + body.strip('\n') + '\n}\n'
    open(d + '/main.rs', 'w').write('#![allow(unused)]\nmod eval;\nuse calcu_rs::prelude::*;\nuse calcu_rs::atom::{Atom, Func};\nuse eval::*;\n\n' + body)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    os.makedirs('/tmp/bug-lock', exist_ok=True)
    shutil.copy('/opt/vp/lock/Cargo.lock.base', '/tmp/bug-lock/Cargo.lock')
    env = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=W + '/target', CARGO_RESOLVER_LOCKFILE_PATH='/tmp/bug-lock/Cargo.lock', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
    r = sh('timeout', '300', 'cargo', 'test', '-p', 'calcu-rs', '-p', 'calcurs_macros', '--no-fail-fast', '--offline', '--', '--test-threads', '8', cwd=W, env=env)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(re.findall(r'^test (\S+) \.\.\. ok$', r.stdout, re.M))
    if 'could not compile' in r.stderr:
        return 'does not compile\n' + r.stderr[-2500:]
    miss = [n for n in base if n.split('.rs::', 1)[-1] not in passed]
    if miss:
        return 'existing tests notice: %s' % [m.split('.rs::')[-1] for m in miss]
    e2 = {k: v for k, v in os.environ.items() if not k.startswith('CARGO')}
    a = sh('bash', d + '/demo.sh', cwd='/repo', env=e2)
    b = sh('bash', d + '/demo.sh', cwd=W, env=e2)
    msg = 'unchanged: %d %s %s | with bug: %d %s %s' % (a.returncode, a.stdout[-300:].strip(), a.stderr[-1500:], b.returncode, b.stdout[-300:].strip(), b.stderr[-300:])
    if a.returncode != 0 or b.returncode == 0 or b.returncode == 3:
        return 'demo does not tell them apart: ' + msg
    shutil.rmtree('/verif/seeded/' + id, ignore_errors=True)
    shutil.copytree(d, '/verif/seeded/' + id)
    shutil.rmtree(d)
    return 'kept; ' + msg


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import bugs
    import buglist
    for id in sys.argv[1:] or [b for b in bugs.BUGS if not os.path.exists('/verif/seeded/' + b)]:
        print(id, '->', bugs.make(id), flush=True)
    sh('git', '-C', W, 'checkout', '--', '.')
