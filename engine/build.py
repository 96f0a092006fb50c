"""Builds the harness crates against /repo's current working tree: LLVM IR for the symbolic executor, native replay binary."""
import os, subprocess, glob, shutil, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TARGET = os.path.join(VERIF, 'target')
IRFLAGS = '-C save-temps --cfg pt_verif -C no-vectorize-loops -C no-vectorize-slp -Awarnings'
NATFLAGS = '--cfg pt_verif -Awarnings'


class BuildError(Exception):
    pass


def _env(tdir, flags):
    e = dict(os.environ)
    e['CARGO_TARGET_DIR'] = tdir
    e['RUSTFLAGS'] = flags
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    e.pop('CARGO_BUILD_TARGET', None)
    return e


def _run(cmd, cwd, env, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def llvm_dis():
    s = subprocess.check_output(['rustc', '+stable', '--print', 'sysroot'], text=True).strip()
    return s + '/lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis'


def build_ir(group, out):
    """returns path of the textual IR of the whole program (harness group + /repo, link-time optimised into one module)"""
    t = os.path.join(TARGET, 'ir-' + group)
    os.makedirs(t, exist_ok=True)
    for f in glob.glob(t + '/release/deps/ptsx*'): os.remove(f)
    for f in glob.glob(t + '/release/.fingerprint/ptsx*') + glob.glob(t + '/release/.fingerprint/pt-*'):
        shutil.rmtree(f, ignore_errors=True)
    _run(['cargo', 'build', '--release', '--offline', '--locked', '--features', 'g_' + group], os.path.join(VERIF, 'harness'), _env(t, IRFLAGS))
    bc = [f for f in glob.glob(t + '/release/deps/ptsx*.rcgu.bc') + glob.glob(t + '/release/deps/ptsx*.bc') if 'no-opt' not in f and 'metadata' not in f
          and 'after' not in f and 'input' not in f]
    bc = sorted(set(bc), key=os.path.getsize)
    if not bc: raise BuildError('no bitcode in ' + t)
    ll = os.path.join(out, group + '.ll')
    _run([llvm_dis(), bc[-1], '-o', ll], out, dict(os.environ))
    for f in glob.glob(t + '/release/deps/*.bc') + glob.glob(t + '/release/deps/*.o'): 
        if 'ptsx' in f: os.remove(f)
    return ll


def build_native(group, out):
    t = os.path.join(TARGET, 'nat-' + group)
    os.makedirs(t, exist_ok=True)
    for f in glob.glob(t + '/release/.fingerprint/ptreplay*') + glob.glob(t + '/release/.fingerprint/pt-*'):
        shutil.rmtree(f, ignore_errors=True)
    _run(['cargo', 'build', '--release', '--offline', '--locked', '--features', 'native g_' + group], os.path.join(VERIF, 'harness/replay'), _env(t, NATFLAGS))
    b = os.path.join(out, 'replay-' + group)
    shutil.copy(os.path.join(t, 'release/ptreplay'), b)
    return b
