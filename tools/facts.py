#!/usr/bin/env python3
"""Extract the MIR facts of /repo's current working tree.

Runs `cargo +nightly check --workspace --offline --locked` with the fact
extractor as RUSTC_WORKSPACE_WRAPPER, in /verif/build/target. The fingerprints
of the workspace crates are removed first, so that they are recompiled from
the current sources on every run, whatever the time stamps say.
"""
import fcntl, glob, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BK_REPO', '/repo')
BUILD = os.environ.get('BK_BUILD', os.path.join(V, 'build'))
CRATES = ['bulloak_syntax', 'bulloak_foundry', 'bulloak']


class FactsError(Exception):
    pass


def extract():
    driver = os.path.join(V, 'build', 'bkdriver')
    if not os.path.exists(driver):
        r = subprocess.run([os.path.join(V, 'tools', 'setup.sh')], capture_output=True, text=True)
        if not os.path.exists(driver):
            raise FactsError('cannot build the fact extractor:\n' + r.stderr)
    out = os.path.join(BUILD, 'facts')
    target = os.path.join(BUILD, 'target')
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for c in CRATES:
            try:
                os.remove(os.path.join(out, c + '.json'))
            except FileNotFoundError:
                pass
        for pat in ('.fingerprint/bulloak*', 'build/bulloak*'):
            for d in glob.glob(os.path.join(target, 'debug', pat)):
                shutil.rmtree(d, ignore_errors=True)
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
        env = dict(os.environ)
        for k in list(env):
            if k.startswith('CARGO') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC', 'RUSTDOCFLAGS', 'RUSTUP_TOOLCHAIN'):
                del env[k]
        env.setdefault('HOME', '/root')
        env.update({
            'RUSTC_WRAPPER': os.path.join(V, 'tools', 'rustc-wrapper.sh'),
            'RUSTC_WORKSPACE_WRAPPER': driver,
            'CARGO_TARGET_DIR': target,
            'CARGO_NET_OFFLINE': 'true',
            'CARGO_INCREMENTAL': '0',
            'CARGO_TERM_COLOR': 'never',
            'CARGO_PROFILE_DEV_DEBUG': '0',
            'CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG': '0',
            'LD_LIBRARY_PATH': os.path.join(sysroot, 'lib'),
            'BK_FACTS': out,
        })
        r = subprocess.run(['cargo', '+nightly', 'check', '--workspace', '--lib', '--bins', '--offline', '--locked'],
                           cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise FactsError('cargo check of the workspace failed:\n' + r.stderr[-4000:])
        data = {}
        for c in CRATES:
            p = os.path.join(out, c + '.json')
            if not os.path.exists(p):
                raise FactsError(f'no facts were extracted for crate {c}')
            with open(p) as f:
                data[c] = json.load(f)
    return data


if __name__ == '__main__':
    d = extract()
    n = sum(len(x['bodies']) for x in d.values())
    print(f'facts: {len(d)} crates, {n} bodies')
