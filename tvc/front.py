"""Front end: compile /repo's current sources to LLVM IR (debug info, no inlining) and load them."""
import os, subprocess, glob, shutil, concurrent.futures, tempfile, hashlib
from . import ir
from .sym import Program

REPO = os.environ.get('TEDS_REPO', '/repo')
CONF = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'conf')
PASSES = 'function(lower-expect,lower-constant-intrinsics,sroa,early-cse,instsimplify,simplifycfg,loop-simplify)'


class BuildError(Exception):
    pass


def cflags():
    inc = subprocess.check_output(['php-config8.3', '--includes'], text=True).split()
    return ['-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-DZEND_COMPILE_DL_EXT=1', '-DPIC', '-w'] + inc + ['-I' + REPO, '-I' + CONF]


def compile_one(src, out):
    ll = out + '.raw.ll'
    r = subprocess.run(['clang', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names'] + cflags() +
                       ['-S', '-emit-llvm', src, '-o', ll], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang failed on %s: %s' % (src, r.stderr[-800:]))
    r = subprocess.run(['opt', '-passes=' + PASSES, '-S', ll, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('opt failed on %s: %s' % (src, r.stderr[-800:]))
    os.unlink(ll)
    return out


def sources():
    return sorted(glob.glob(REPO + '/*.c'))


def build_ir(outdir, names=None):
    os.makedirs(outdir, exist_ok=True)
    srcs = [s for s in sources() if names is None or os.path.basename(s)[:-2] in names] + [CONF + '/tvc_aux.c']
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = {os.path.basename(s)[:-2]: ex.submit(compile_one, s, os.path.join(outdir, os.path.basename(s)[:-2] + '.ll')) for s in srcs}
        return {k: f.result() for k, f in fs.items()}


def load(files):
    mods = {k: ir.Module(p) for k, p in files.items()}
    return mods


def program(mods):
    return Program(list(mods.values()))
