#!/usr/bin/env python3
"""Plants bugs. usage: seed.py defs.py [id...]   (defs.py defines BUGS)
                       seed.py --recheck [id...] (run the checks against the bugs in /verif/seeded)
Works in a scratch copy of /repo under /tmp, which it removes."""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
DEMO = '''#!/bin/bash
# exit 0 when the code under test is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w %s -Iinclude "$D/demo.cpp" src/adevs.cpp -o "$W/demo" %s -lpthread || exit 3
cd "$W" && timeout 60 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


class Scratch:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        self.repo = self.d + '/repo'
        assert sh('git clone -q /repo %s' % self.repo).returncode == 0
        for n in ('build.sh', 'test.sh'):
            t = open('/opt/vp/' + n).read().replace('/repo', self.repo).replace('/opt/vp/build.sh', self.d + '/build.sh')
            open(self.d + '/' + n, 'w').write(t)
        self.stable = None

    def reset(self):
        sh('git -C %s checkout -q -- .' % self.repo)

    def test(self):
        r = sh('bash %s/test.sh %s/out.json' % (self.d, self.d))
        res = json.load(open(self.d + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        need = base.get('passed') or base.get('stable') or base.get('tests')
        return [t for t in need if t not in res['passed']] if need else res['failed'] or ['no baseline']

    def demo(self, d):
        t = tempfile.mkdtemp(dir=self.d)
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(d, f), t)
        r = sh('bash %s/demo.sh' % t, cwd=self.repo)
        return r.returncode, (r.stdout + r.stderr)[-600:]

    def check(self, prop):
        env = dict(os.environ, VERIF_REPO=self.repo, VERIF_SEED='1', VERIF_TIER='quick')
        r = sh('python3 check.py %s' % prop, cwd=VERIF, env=env)
        m = re.search(r'VIOLATION property=%s.*' % prop, r.stdout)
        return r.returncode == 1 and m is not None, (r.stdout + r.stderr)[-400:]

    def done(self):
        assert self.d.startswith('/tmp/seed')
        shutil.rmtree(self.d)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--recheck':
        s = Scratch()
        for b in a[1:] or sorted(os.listdir(SEEDED)):
            s.reset()
            p = os.path.join(SEEDED, b)
            prop = json.load(open(p + '/meta.json'))['property']
            r = sh('git -C %s apply %s/patch.diff' % (s.repo, p))
            if r.returncode:
                print(b, 'DOES NOT APPLY', r.stderr)
                continue
            ok, out = s.check(prop)
            print(b, prop, 'caught' if ok else 'MISSED ' + out, flush=True)
        s.done()
        return
    ns = {}
    exec(open(a[0]).read(), ns)
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    s = Scratch()
    for b in ns['BUGS']:
        if a[1:] and b['id'] not in a[1:]:
            continue
        s.reset()
        out = os.path.join(s.d, 'bug')
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/demo.cpp', 'w').write(b['demo'])
        open(out + '/demo.sh', 'w').write(DEMO % (b.get('flags', ''), b.get('libs', '')))
        for f in b.get('files', []):
            shutil.copy(f, out)
        rc, txt = s.demo(out)
        if rc:
            print(b['id'], 'DEMO FAILS UNPATCHED', rc, txt)
            continue
        bad = False
        for e in b['edits']:
            f = os.path.join(s.repo, e[0])
            t = open(f).read()
            occ = e[3] if len(e) > 3 else 1
            if len(e) <= 3 and t.count(e[1]) != 1:
                print(b['id'], 'edit matches', t.count(e[1]), 'times:', e[1][:80])
                bad = True
                break
            i = -1
            for _ in range(occ):
                i = t.find(e[1], i + 1)
            if i < 0:
                print(b['id'], 'NO MATCH', e[1][:80])
                bad = True
                break
            open(f, 'w').write(t[:i] + e[2] + t[i + len(e[1]):])
        if bad:
            continue
        diff = sh('git -C %s diff -U3' % s.repo).stdout
        open(out + '/patch.diff', 'w').write(diff)
        # at least one changed line must be in the original repository
        orig = 0
        for e in {e[0] for e in b['edits']}:
            d0 = sh('git -C %s diff -U0 -- %s' % (s.repo, e)).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d0, re.M):
                st, n = int(m[1]), int(m[2] or 1)
                if n == 0:
                    continue
                bl = sh('git -C %s blame -l -s -L %d,%d HEAD -- %s' % (s.repo, st, st + n - 1, e)).stdout
                orig += sum(1 for l in bl.splitlines() if l.lstrip('^').startswith(base[:39]))
        if not orig:
            print(b['id'], 'NO ORIGINAL LINE CHANGED')
            continue
        failed = s.test()
        if failed:
            print(b['id'], 'TESTS FAIL', failed[:6])
            continue
        rc, txt = s.demo(out)
        if rc in (0, 3):
            print(b['id'], 'DEMO PASSES PATCHED', rc, txt)
            continue
        dst = os.path.join(SEEDED, b['id'])
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        ok, o = s.check(b['property'])
        print(b['id'], b['property'], 'KEPT', 'caught' if ok else 'MISSED ' + o, '| demo rc', rc, txt.strip()[-100:], flush=True)
    s.done()


main()
