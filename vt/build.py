"""Builds: the MIR dumper (rustc driver), the std MIR sysroot, per-contract MIR dumps.
Everything lives under BUILD (git-ignored); every step is re-done when missing or stale."""
import os, sys, subprocess, shutil, hashlib, fcntl, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
NIGHTLY = 'nightly'
CONTRACTS = {  # dir -> (crate name, wasm file)
    'staking-pool': 'staking_pool', 'lockup': 'lockup_contract', 'multisig': 'multisig',
    'multisig2': 'multisig2', 'voting': 'voting_contract', 'whitelist': 'whitelist', 'w-near': 'w_near',
    'staking-pool-factory': 'staking_pool_factory', 'lockup-factory': 'lockup_factory',
    'multisig-factory': 'multisig_factory', 'state-manipulation': 'state_manipulation',
}

class BuildError(Exception): pass

def run(cmd, env=None, cwd=None, what=''):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO') or k.startswith('RUST'):
            if k not in ('CARGO_HOME', 'RUSTUP_HOME'): del e[k]
    e['CARGO_NET_OFFLINE'] = 'true'
    if env: e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        i = p.stdout.find('\nerror'); raise BuildError('%s failed (%d):\n%s' % (what or cmd, p.returncode, p.stdout[i:i + 2500] if i >= 0 else p.stdout[-6000:]))
    return p.stdout

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode()); h.update(open(q, 'rb').read())
        elif os.path.exists(p):
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def stamp_ok(path, val):
    try: return open(path).read() == val
    except OSError: return False

def ensure_driver():
    src = os.path.join(VERIF, 'driver', 'mirdump.rs')
    out = os.path.join(BUILD, 'mirdump')
    s = sha(src)
    with Lock('driver'):
        if os.path.exists(out) and stamp_ok(out + '.stamp', s): return out
        run(['rustc', '--edition', '2021', '-O', '-o', out, src], env={'RUSTUP_TOOLCHAIN': NIGHTLY}, what='mirdump build')
        open(out + '.stamp', 'w').write(s)
    return out

def nightly_sysroot():
    return run(['rustc', '--print', 'sysroot'], env={'RUSTUP_TOOLCHAIN': NIGHTLY}).strip()

def ensure_sysroot():
    out = os.path.join(BUILD, 'sysroot')
    val = 'v1'
    with Lock('sysroot'):
        if stamp_ok(out + '.stamp', val): return out
        d = os.path.join(BUILD, 'bs')
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
        os.makedirs(d + '/src'); os.makedirs(d + '/.cargo')
        open(d + '/src/lib.rs', 'w').write('')
        open(d + '/Cargo.toml', 'w').write('[package]\nname="bs"\nversion="0.1.0"\nedition="2021"\n[lib]\n[workspace]\n[profile.dev]\ndebug=false\ndebug-assertions=false\noverflow-checks=false\npanic="abort"\nopt-level=0\n')
        vendor = nightly_sysroot() + '/lib/rustlib/src/rust/library/vendor'
        open(d + '/.cargo/config.toml', 'w').write('[source.crates-io]\nreplace-with="vendored"\n[source.vendored]\ndirectory="%s"\n' % vendor)
        run(['cargo', 'check', '-Zbuild-std=std,panic_abort', '--target', 'wasm32-unknown-unknown', '--offline'], cwd=d,
            env={'RUSTUP_TOOLCHAIN': NIGHTLY, 'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=2'}, what='std MIR build')
        lib = out + '/lib/rustlib/wasm32-unknown-unknown/lib'
        os.makedirs(lib)
        for f in glob.glob(d + '/target/wasm32-unknown-unknown/debug/**/*.rmeta', recursive=True):
            b = os.path.basename(f)
            if b.startswith('libbs-') or not b.startswith('lib'): continue
            shutil.copy(f, lib)
        shutil.rmtree(d, ignore_errors=True)
        open(out + '.stamp', 'w').write(val)
    return out

def dump(contract):
    """Compile the contract from REPO's working tree and dump its MIR; returns the dump path."""
    drv = ensure_driver(); sysroot = ensure_sysroot()
    crate = CONTRACTS[contract]
    src = os.path.join(REPO, contract)
    ws = os.path.join(BUILD, 'ws', contract)
    out = os.path.join(BUILD, 'mir', contract + '.mir')
    with Lock('dump-' + contract):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        s = sha(src + '/src', src + '/Cargo.toml', src + '/Cargo.lock', drv + '.stamp')
        if contract.endswith('-factory'):
            s += sha(*[os.path.join(REPO, c, 'res') for c in CONTRACTS if os.path.isdir(os.path.join(REPO, c, 'res'))])
        if os.path.exists(out) and stamp_ok(out + '.stamp', s): return out
        shutil.rmtree(ws, ignore_errors=True); os.makedirs(ws)
        for n in ('src', 'res', '.cargo'):
            if os.path.isdir(src + '/' + n) and n != '.cargo': shutil.copytree(src + '/' + n, ws + '/' + n)
        for n in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
            if os.path.exists(src + '/' + n): shutil.copy(src + '/' + n, ws + '/' + n)
        for c in CONTRACTS:   # factories include_bytes! the sibling res directories
            if contract.endswith('-factory') and c != contract and os.path.isdir(os.path.join(REPO, c, 'res')):
                dst = os.path.join(BUILD, 'ws', c, 'res')
                if not os.path.isdir(dst): shutil.copytree(os.path.join(REPO, c, 'res'), dst)
        import re
        t = open(ws + '/Cargo.toml').read()
        t = re.sub(r'(?m)^[A-Za-z0-9_-]+ *= *\{ *git *=.*\n', '', t)
        open(ws + '/Cargo.toml', 'w').write(t)
        env = {'RUSTUP_TOOLCHAIN': NIGHTLY, 'RUSTC': drv, 'MIRDUMP_SYSROOT': sysroot,
               'LD_LIBRARY_PATH': nightly_sysroot() + '/lib',
               'CARGO_TARGET_DIR': os.path.join(BUILD, 'target', contract), 'MIRDUMP_CRATE': crate, 'MIRDUMP_OUT': out + '.tmp',
               'CARGO_PROFILE_RELEASE_LTO': 'off', 'CARGO_PROFILE_RELEASE_OPT_LEVEL': '0', 'CARGO_PROFILE_RELEASE_DEBUG': 'false',
               'CARGO_PROFILE_RELEASE_PANIC': 'abort', 'CARGO_INCREMENTAL': '0'}
        lock = ws + '/Cargo.lock'
        # num-bigint 0.3.0-0.3.2 does not compile with the nightly std (div_ceil); not reachable from contract code
        m = re.search(r'name = "num-bigint"\nversion = "(0\.3\.[012])"', open(lock).read()) if os.path.exists(lock) else None
        if m:
            run(['cargo', 'update', '-p', 'num-bigint:' + m.group(1), '--precise', '0.3.3', '--offline'], cwd=ws, env=env, what='lock fix')
        # force the contract crate itself to be rebuilt
        pkg = re.search(r'(?m)^name *= *"([^"]+)"', t).group(1)
        for prof in ('wasm32-unknown-unknown/release', 'release'):
            shutil.rmtree(os.path.join(BUILD, 'target', contract, prof, 'build', pkg), ignore_errors=True)
            for f in glob.glob(os.path.join(BUILD, 'target', contract, prof, '.fingerprint', pkg + '-*')): shutil.rmtree(f, ignore_errors=True)
        if os.path.exists(out + '.tmp'): os.remove(out + '.tmp')
        o = run(['cargo', 'check', '--release', '--lib', '--target', 'wasm32-unknown-unknown', '--offline'], cwd=ws, env=env, what='MIR dump of ' + contract)
        if not os.path.exists(out + '.tmp'): raise BuildError('no MIR dump produced for %s\n%s' % (contract, o[-3000:]))
        os.replace(out + '.tmp', out)
        open(out + '.stamp', 'w').write(s)
    return out

RUSTC169 = '/root/.rustup/toolchains/1.69.0-x86_64-unknown-linux-gnu/bin/rustc'
def wasm(contract):
    """Build the contract's wasm from REPO the way its build.sh does (1.70 cargo, 1.69 rustc); returns the path."""
    crate = CONTRACTS[contract]
    src = os.path.join(REPO, contract)
    root = os.path.join(BUILD, 'wws')
    ws = os.path.join(root, contract)
    out = os.path.join(BUILD, 'wasm', crate + '.wasm')
    with Lock('wasm-' + contract):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        res = [os.path.join(REPO, c, 'res') for c in CONTRACTS if os.path.isdir(os.path.join(REPO, c, 'res'))]
        s = sha(src + '/src', src + '/Cargo.toml', src + '/Cargo.lock', *(res if contract.endswith('-factory') else []))
        if os.path.exists(out) and stamp_ok(out + '.stamp', s): return out
        shutil.rmtree(ws, ignore_errors=True); os.makedirs(ws)
        for n in ('src', 'res'):
            if os.path.isdir(src + '/' + n): shutil.copytree(src + '/' + n, ws + '/' + n)
        for n in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
            if os.path.exists(src + '/' + n): shutil.copy(src + '/' + n, ws + '/' + n)
        if contract.endswith('-factory'):
            for r in res:
                c = os.path.basename(os.path.dirname(r))
                if c != contract and not os.path.isdir(os.path.join(root, c, 'res')): shutil.copytree(r, os.path.join(root, c, 'res'))
        import re
        t = open(ws + '/Cargo.toml').read()
        open(ws + '/Cargo.toml', 'w').write(re.sub(r'(?m)^[A-Za-z0-9_-]+ *= *\{ *git *=.*\n', '', t))
        for d, ds, fs in os.walk(ws + '/src'):
            for f in fs: os.utime(os.path.join(d, f))
        env = {'RUSTUP_TOOLCHAIN': '1.70.0', 'RUSTC': RUSTC169, 'RUSTFLAGS': '-C link-arg=-s', 'CARGO_INCREMENTAL': '0',
               'CARGO_TARGET_DIR': os.path.join(BUILD, 'wtarget', contract)}
        if contract == 'state-manipulation': env['RUSTC_BOOTSTRAP'] = '1'    # alloc_error_handler
        pkg = re.search(r'(?m)^name *= *"([^"]+)"', t).group(1)
        for q in glob.glob(os.path.join(BUILD, 'wtarget', contract, 'wasm32-unknown-unknown', 'release', '.fingerprint', pkg + '-*')): shutil.rmtree(q, ignore_errors=True)
        run(['cargo', 'build', '--target', 'wasm32-unknown-unknown', '--release', '--lib', '--offline'], cwd=ws, env=env, what='wasm build of ' + contract)
        f = os.path.join(BUILD, 'wtarget', contract, 'wasm32-unknown-unknown', 'release', crate + '.wasm')
        shutil.copy(f, out + '.tmp'); os.replace(out + '.tmp', out)
        open(out + '.stamp', 'w').write(s)
    return out

def setup():
    from concurrent.futures import ThreadPoolExecutor
    ensure_driver(); ensure_sysroot()
    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(dump, c) for c in CONTRACTS] + [ex.submit(wasm, c) for c in CONTRACTS]:
            try: f.result()
            except BuildError as e: print('setup: ' + str(e)[-1500:])

if __name__ == '__main__' and sys.argv[1:2] == ['setup']: setup()
elif __name__ == '__main__' and sys.argv[1:2] == ['wasm']:
    for c in (sys.argv[2:] or CONTRACTS):
        t = time.time(); p = wasm(c); print(c, p, os.path.getsize(p), '%.1fs' % (time.time() - t))
elif __name__ == '__main__':
    for c in (sys.argv[1:] or CONTRACTS):
        t = time.time(); p = dump(c); print(c, p, os.path.getsize(p), '%.1fs' % (time.time() - t))
