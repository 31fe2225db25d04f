"""Builds everything a check needs: the engine, the standard library's bitcode, the harness and the
code under test as LLVM IR (regenerated from /repo's current working tree), and the native replayer."""
import glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TC = 'stable-x86_64-unknown-linux-gnu'
CARGO_HOME = os.environ.get('CARGO_HOME', '/root/.cargo')
RUSTUP_HOME = os.environ.get('RUSTUP_HOME', '/root/.rustup')
TCDIR = f'{RUSTUP_HOME}/toolchains/{TC}'
LLVM = f'{TCDIR}/lib/rustlib/x86_64-unknown-linux-gnu/bin'
RLIBS = f'{TCDIR}/lib/rustlib/x86_64-unknown-linux-gnu/lib'


def env(**kw):
    e = dict(os.environ)
    e['PATH'] = f'{CARGO_HOME}/bin:/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
             CARGO_INCREMENTAL='0')
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    e.update(kw)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise RuntimeError('command failed: ' + ' '.join(cmd)[:300])
    return r.stdout


def engine():
    out = f'{BUILD}/engine/release/symvm'
    run(['cargo', 'build', '--release', '--offline', '--manifest-path', f'{VERIF}/engine/Cargo.toml',
         '--target-dir', f'{BUILD}/engine'], env=env())
    return out


def std_bc():
    out = f'{BUILD}/std.bc'
    if os.path.exists(out):
        return out
    work = f'{BUILD}/std'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    bcs = []
    for name in ['core', 'alloc', 'std', 'hashbrown', 'memchr', 'rustc_demangle', 'std_detect', 'cfg_if',
                 'libc', 'unwind', 'miniz_oxide', 'gimli', 'object', 'addr2line', 'adler2', 'panic_abort']:
        for rlib in glob.glob(f'{RLIBS}/lib{name}-*.rlib'):
            d = f'{work}/{name}'
            os.makedirs(d)
            run([f'{LLVM}/llvm-ar', 'x', rlib], cwd=d)
            for o in sorted(glob.glob(f'{d}/*.o')):
                bc = o[:-2] + '.bc'
                subprocess.run([f'{LLVM}/llvm-objcopy', f'--dump-section=.llvmbc={bc}', o, '/dev/null'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(bc) and os.path.getsize(bc):
                    bcs.append(bc)
    run([f'{LLVM}/llvm-link', '-o', out + '.tmp'] + bcs)
    os.rename(out + '.tmp', out)
    shutil.rmtree(work, ignore_errors=True)
    return out


def src_hash():
    h = hashlib.sha256()
    for root in (f'{REPO}/src', f'{VERIF}/harness/src'):
        for p in sorted(glob.glob(root + '/**/*.rs', recursive=True)):
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    for p in (f'{REPO}/Cargo.toml', f'{VERIF}/harness/Cargo.toml', os.path.abspath(__file__)):
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


OPT = os.environ.get('VERIF_OPT', 'default<O1>')


def newest(pat):
    c = [p for p in glob.glob(pat)]
    return max(c, key=os.path.getmtime) if c else None


def harness_ll(cli=False):
    """LLVM IR of the harness, the library crate and (for cli) the real binary, plus the std code they reach."""
    tag = src_hash()
    out = f'{BUILD}/ll/{"cli" if cli else "lib"}-{tag}.ll'
    if os.path.exists(out):
        return out
    std = std_bc()
    os.makedirs(f'{BUILD}/ll', exist_ok=True)
    td = f'{BUILD}/bc'
    shutil.rmtree(td, ignore_errors=True)
    flags = ('-C save-temps -C overflow-checks=on -C no-prepopulate-passes -C panic=abort -C codegen-units=1 '
             '--cfg mofmt_verif -Awarnings -C link-arg=-Wl,--unresolved-symbols=ignore-all')
    e = env(RUSTFLAGS=flags)
    parts = []
    run(['cargo', 'build', '--release', '--offline', '--lib', '--manifest-path', f'{VERIF}/harness/Cargo.toml',
         '--target-dir', td], env=e)
    for n in ('vh', 'mofmt'):
        parts.append(newest(f'{td}/release/deps/{n}-*.no-opt.bc'))
    if cli:
        td2 = td + 'cli'
        shutil.rmtree(td2, ignore_errors=True)
        # a different metadata value keeps this copy of the library apart from the harness's
        run(['cargo', 'build', '--release', '--offline', '--bin', 'mofmt', '--manifest-path', f'{REPO}/Cargo.toml',
             '--target-dir', td2], env=env(RUSTFLAGS=flags + ' -C metadata=cli -C lto=off'))
        for p in sorted(glob.glob(f'{td2}/release/deps/mofmt-*.no-opt.bc')):
            parts.append(p)
    assert all(parts), parts
    t = f'{BUILD}/ll/tmp{os.getpid()}'
    run([f'{LLVM}/llvm-link', '-o', t + '.bc'] + parts)
    run([f'{LLVM}/llvm-link', '--only-needed', '-o', t + '2.bc', t + '.bc', std])
    syms = run([f'{LLVM}/llvm-nm', '--defined-only', '--format=just-symbols', t + '.bc'])
    keep = [s for s in syms.split() if s.startswith('h_') or s == 'main']
    run([f'{LLVM}/opt', f'-passes=internalize,globaldce,{OPT},strip-dead-prototypes', '-vectorize-loops=false',
         '-vectorize-slp=false', '-internalize-public-api-list=' + ','.join(keep), t + '2.bc', '-o', t + '3.bc'])
    run([f'{LLVM}/opt', '-passes=strip,globaldce' if False else '-strip-debug', t + '3.bc', '-S', '-o', t + '.ll'])
    os.rename(t + '.ll', out)
    for p in glob.glob(t + '*'):
        os.remove(p)
    shutil.rmtree(td, ignore_errors=True)
    shutil.rmtree(td + 'cli', ignore_errors=True)
    return out


def native(cli=False):
    """The replayer, linked against the real library (release profile), and the real executable."""
    td = f'{BUILD}/native'
    # Cargo compares modification times: force a look at the sources
    for p in glob.glob(f'{td}/*/.fingerprint/mofmt-*') + glob.glob(f'{td}/*/.fingerprint/vh-*'):
        shutil.rmtree(p, ignore_errors=True)
    run(['cargo', 'build', '--profile', 'native', '--offline', '--features', 'native', '--bin', 'replay', '--manifest-path',
         f'{VERIF}/harness/Cargo.toml', '--target-dir', td], env=env(RUSTFLAGS='--cfg mofmt_verif -Awarnings'))
    exe = f'{td}/native/replay'
    if cli:
        run(['cargo', 'build', '--release', '--offline', '--bin', 'mofmt', '--manifest-path', f'{REPO}/Cargo.toml',
             '--target-dir', td], env=env())
    return exe


if __name__ == '__main__':
    for f in (engine, std_bc, harness_ll, native):
        t0 = time.time()
        print(f.__name__, f(), '%.1f s' % (time.time() - t0))
