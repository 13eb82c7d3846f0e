#!/usr/bin/env python3
"""Validate planted bugs: trial.py ID... [--fast] [--all-checks]
In a scratch copy of /repo: demo passes unchanged; patch applies, builds, stable tests pass, demo fails; which checks catch it."""
import json, os, subprocess, sys, shutil, re
V = '/verif'
S = '/tmp/sr/repo'


def sh(c, cwd=S, env=None, t=900):
    e = dict(os.environ, RUST_BACKTRACE='0')
    e.update(env or {})
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=e, timeout=t)
    return r.returncode, r.stdout + r.stderr


def fresh():
    if not os.path.isdir(S):
        os.makedirs('/tmp/sr', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', S])
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')


def tests():
    rc, out = sh('. /opt/vp/env.sh; cd /tmp/sr/repo; cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    return set(re.findall(r'^test (.*?) \.\.\. ok$', out, re.M)), out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    fast = '--fast' in sys.argv
    fresh()
    base = None
    for i in args:
        d = f'{V}/seeded/{i}'
        meta = json.load(open(d + '/meta.json'))
        res = [i, meta['property']]
        if not fast:
            sh('. /opt/vp/env.sh; cd /tmp/sr/repo; cargo test --workspace --all-targets --no-run --offline')
            if base is None:
                base, _ = tests()
            rc, out = sh(f'bash {d}/demo.sh', t=300)
            res.append('demo-clean ' + ('ok' if rc == 0 else f'FAIL({out[-300:]})'))
        rc, out = sh(f'git apply {d}/patch.diff')
        if rc:
            print(res, 'PATCH DOES NOT APPLY', out[-300:])
            continue
        try:
            if not fast:
                rc, out = sh('. /opt/vp/env.sh; cd /tmp/sr/repo; cargo test --workspace --all-targets --no-run --offline')
                if rc:
                    print(res, 'BUILD FAILS', out[-1500:])
                    continue
                t, out = tests()
                res.append('tests ok' if base <= t else f'TESTS FAIL {sorted(base - t)[:4]}')
                rc, out = sh(f'bash {d}/demo.sh', t=300)
                res.append('demo-patched ' + (f'fails as it should' if rc else 'PASSES (bad)'))
            ps = [meta['property']]
            if '--all-checks' in sys.argv:
                ps = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
            for p in ps:
                rc, out = sh(f'python3 tools/check.py {p}', cwd=V, env={'BK_REPO': S, 'BK_BUILD': '/tmp/sr/build'})
                und = out.count('undecided:')
                if '--all-checks' not in sys.argv or rc:
                    res.append(f'{p}: ' + ('CAUGHT' if rc == 1 else f'rc={rc}') + (f' ({und} undecided)' if und else ''))
                if '-v' in sys.argv or '--show' in sys.argv:
                    print(out[-2500:])
        finally:
            sh('git checkout -q -- .')
        print(' | '.join(res), flush=True)


main()
