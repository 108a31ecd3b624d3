"""Concrete side: builds the extension from /repo's current sources in a scratch directory and runs the replay drivers on it."""
import os, subprocess, glob, json, time, concurrent.futures, signal, resource, re
from . import front

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
FLAGS = ['-fPIC', '-DHAVE_CONFIG_H', '-DCOMPILE_DL_TEDS', '-DZEND_ENABLE_STATIC_TSRMLS_CACHE=1', '-w']


def build(outdir, asan):
    os.makedirs(outdir, exist_ok=True)
    inc = subprocess.check_output(['php-config8.3', '--includes'], text=True).split()
    opt = ['-O1', '-g', '-fsanitize=unreachable', '-fsanitize-trap=unreachable'] + (['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else [])
    srcs = front.sources()

    def one(s):
        o = os.path.join(outdir, os.path.basename(s)[:-2] + '.o')
        r = subprocess.run(['gcc'] + opt + FLAGS + ['-I' + front.REPO] + inc + ['-I' + front.CONF, '-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise front.BuildError('gcc failed on %s: %s' % (s, r.stderr[-800:]))
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    so = os.path.join(outdir, 'teds.so')
    r = subprocess.run(['gcc'] + opt + ['-shared', '-o', so] + objs, capture_output=True, text=True)
    if r.returncode:
        raise front.BuildError('link failed: ' + r.stderr[-800:])
    for o in objs:
        os.unlink(o)
    if asan:
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-o', os.path.join(outdir, 'shim.so'), HERE + '/shim/shim.c', '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise front.BuildError('shim: ' + r.stderr)
    return so


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(so, asan, script, args, seed, scale, scratch, timeout=200, leaks=True):
    """Returns dict(ok, kind, detail, stats, out)."""
    log = os.path.join(scratch, 'case-%s-%d-%s-%d.log' % (os.path.basename(script), seed, '_'.join(map(str, args)), int(asan)))
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LC_ALL', 'TZ')}
    env.update(VERIF_SEED=str(seed), DRV_SCALE=str(scale), DRV_LOG=log, DRV_ASAN='1' if asan else '')
    if asan:
        lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
        env.update(USE_ZEND_ALLOC='0', ASAN_OPTIONS='verify_asan_link_order=0:detect_leaks=%d:allocator_may_return_null=1' % (1 if leaks else 0),
                   LD_PRELOAD=os.path.dirname(so) + '/shim.so:' + lib)
    cmd = ['php8.3', '-n', '-d', 'extension=' + so, script] + [str(a) for a in args]
    t0 = time.time()
    p = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=_limits)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = 'timeout'
    out = out.decode('utf-8', 'replace')
    r = dict(driver=os.path.basename(script), args=list(args), seed=seed, scale=scale, asan=asan, rc=rc, wall=time.time() - t0, stats={}, known=[], ok=False,
             command='VERIF_SEED=%d DRV_SCALE=%s php8.3 -n -d extension=<teds.so built from /repo%s> %s %s' % (seed, scale, ' with -fsanitize=address' if asan else '', 'drv/' + os.path.basename(script), ' '.join(map(str, args))))
    for l in out.splitlines():
        if l.startswith('DRVSTATS '):
            try:
                r['stats'] = json.loads(l[9:])
            except ValueError:
                pass
        if l.startswith('DRVKNOWN '):
            r['known'].append(l[9:].strip())
        if l.startswith('DRVFAIL '):
            r['fail'] = l[8:]
    last = ''
    try:
        last = open(log, errors='replace').read().strip()
    except OSError:
        pass
    if 'fail' in r:
        r['kind'] = 'mismatch'
        r['detail'] = r['fail']
    elif 'ERROR: LeakSanitizer' in out:
        r['kind'] = 'leak'
        r['detail'] = out[out.index('ERROR: LeakSanitizer'):][:3000]
    elif 'ERROR: AddressSanitizer' in out:
        r['kind'] = 'memory error'
        r['detail'] = out[out.index('ERROR: AddressSanitizer'):][:3000] + '\nlast case: ' + last
    elif rc == 'timeout':
        r['kind'] = 'no answer within %d s' % timeout
        r['detail'] = 'last case: ' + last
    elif rc != 0 or 'DRVOK' not in out:
        r['kind'] = 'crash (exit %s)' % rc
        r['detail'] = out[-1500:] + '\nlast case: ' + last
    else:
        r['ok'] = True
    return r
