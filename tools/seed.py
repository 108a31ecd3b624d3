"""seed.py SPEC.json: make a planted bug (apply the replacement in /repo, build, run the stable tests, run the demo, undo) and keep it under seeded/."""
import json, sys, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode:
        return 'build failed: ' + (b.stdout + b.stderr)[-800:]
    sh('bash /opt/vp/test.sh /tmp/seed-out.json')
    o = json.load(open('/tmp/seed-out.json'))
    m = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in o['passed']]
    return 'tests now failing: %s' % m if m else None


def main(path):
    specs = json.load(open(path)) if path.endswith('.json') else eval(open(path).read())
    for s in specs:
        d = '%s/seeded/%s' % (V, s['id'])
        assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
        try:
            for f, old, new in s['edits']:
                t = open('/repo/' + f).read()
                if t.count(old) != 1:
                    print(s['id'], 'REJECTED: pattern occurs %d times in %s' % (t.count(old), f))
                    break
                open('/repo/' + f, 'w').write(t.replace(old, new))
            else:
                err = stable()
                if err:
                    print(s['id'], 'REJECTED:', err)
                    continue
                os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
                open(d + '/demo.php', 'w').write(s['demo'])
                open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds on this input; nonzero: it does not\nexec php8.3 -n -d extension=/repo/modules/teds.so "$(dirname "$0")/demo.php"\n' if not s.get('sh') else s['sh'])
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
                bad = sh('bash %s/demo.sh' % d, cwd='/repo')
                sh('git -C /repo checkout -- .')
                sh('bash /opt/vp/build.sh')
                good = sh('bash %s/demo.sh' % d, cwd='/repo')
                ok = good.returncode == 0 and bad.returncode != 0
                print(s['id'], 'ok' if ok else 'REJECTED', 'with bug rc=%s %s | without rc=%s %s' % (bad.returncode, (bad.stdout + bad.stderr)[-150:].strip(), good.returncode, (good.stdout + good.stderr)[-300:].strip()))
                if not ok:
                    sh('rm -r ' + d)
        finally:
            sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')


main(sys.argv[1])
