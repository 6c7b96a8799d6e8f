#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses against /repo's current
working tree, runs generated cases in parallel workers, shrinks and confirms any
failure, writes the evidence file.

  check.py <ID> [--tier quick|thorough]     decide a property
  check.py --replay <file>                  run one recorded case again (verbose)
"""
import argparse, hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NCPU = min(8, os.cpu_count() or 1)
CXX = 'clang++'
BASE = ['-std=c++17', '-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
        '-fno-sanitize-recover=undefined', '-ftrivial-auto-var-init=pattern', '-Wno-everything']
ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:hard_rss_limit_mb=3000:max_malloc_fill_size=65536:'
                    'malloc_fill_byte=190:quarantine_size_mb=16:allocator_may_return_null=0:'
                    'handle_abort=1:alloc_dealloc_mismatch=1',
    'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=0:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:report_signal_unsafe=0',
    'LC_ALL': 'C',
})
ENV.pop('PBT_NOASLR', None)


def compile_cmd(b, out, fuzz=False):
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness')]
    inc += ['-I' + os.path.join(VERIF, 'harness', d) for d in b.get('inc', [])]
    flags = list(BASE)
    if b.get('flags') is not None:
        flags = ['-std=c++17', '-g1', '-Wno-everything'] + b['flags']
    if fuzz:
        flags = [f.replace('-fsanitize=address', '-fsanitize=fuzzer,address') for f in flags] + ['-DPBT_FUZZ']
    return ([CXX] + flags + inc + ['-D' + d for d in b.get('defs', [])] +
            [os.path.join(VERIF, 'harness', b['src']), os.path.join(REPO, 'src', 'adevs.cpp'), '-o', out] +
            b.get('libs', []) + ['-lpthread'])


class Build:
    def __init__(self, work):
        self.work = work

    def build(self, b, fuzz=False):
        out = os.path.join(self.work, b['name'] + ('-fuzz' if fuzz else ''))
        r = subprocess.run(compile_cmd(b, out, fuzz), capture_output=True, text=True, env=ENV)
        if r.returncode != 0:
            return b['name'] + ': ' + r.stderr[-4000:]
        return None


def read_status(path):
    """index, state, message, choices of the case that was running"""
    try:
        d = open(path, 'rb').read()
    except OSError:
        return None
    idx, n, state = struct.unpack_from('<QQQ', d, 0)
    msg = d[24:24 + 4096].split(b'\0')[0].decode('latin1')
    n = min(n, (len(d) - 4120) // 8)
    return idx, state, msg, list(struct.unpack_from('<%dQ' % n, d, 4120))


def write_raw(path, choices):
    with open(path, 'w') as f:
        f.write('choices %d\n' % len(choices))
        f.writelines('%d\n' % c for c in choices)


def san_summary(text):
    for pat in (r'SUMMARY: [^\n]*', r'[^\n]*runtime error[^\n]*', r'[^\n]*Assertion[^\n]*', r'[^\n]*rss limit[^\n]*'):
        m = re.search(pat, text)
        if m:
            return m.group(0).strip()
    return text.strip()[-300:]


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = CHECKS[pid]
        self.work = os.path.join(VERIF, 'out', 'work', '%s-%d' % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.results, self.failures, self.notes = [], [], []
        self.procs = set()
        self.fuzz_runs = 0

    def log(self, *a):
        print(*a, flush=True)

    # -- one chunk of generated cases
    def chunk(self, b, start, count, k):
        exe = os.path.join(self.work, b['name'])
        tag = '%s.%d' % (exe, k)
        while count > 0 and not self.stop.is_set():
            st, out, err = tag + '.status', tag + '.json', tag + '.err'
            for f in (st, out):
                if os.path.exists(f):
                    os.remove(f)
            with open(err, 'w') as ef:
                p = subprocess.Popen([exe, '--seed', str(self.seed), '--start', str(start), '--count', str(count),
                                      '--out', out, '--status', st, '--samples', '1'],
                                     stdout=subprocess.DEVNULL, stderr=ef, env=ENV)
                with self.lock:
                    self.procs.add(p)
                rc = p.wait()
                with self.lock:
                    self.procs.discard(p)
            if self.stop.is_set():
                return
            if rc == 0:
                r = json.load(open(out))
                with self.lock:
                    self.results.append((b['name'], r))
                return
            s = read_status(st)
            if s is None:
                with self.lock:
                    self.notes.append('%s: worker ended with %d before its first case: %s' %
                                      (b['name'], rc, open(err).read()[-500:]))
                    self.failures.append(None)
                self.stop.set()
                return
            if not self.failed(b, s, open(err, errors='replace').read(), start):
                return
            done = s[0] + 1 - start
            start, count = start + done, count - done

    # -- a case failed: shrink, confirm, report. True to carry on behind it
    def failed(self, b, s, err, start):
        with self.lock:
            if self.stop.is_set():
                return False
            idx, state, msg, choices = s
            exe = os.path.join(self.work, b['name'])
            raw = os.path.join(self.work, 'raw-%s-%d' % (b['name'], idx))
            write_raw(raw, choices)
            shr = raw + '.min'
            first = msg or san_summary(err)
            self.log('case %s of %s fails: %s' % (idx, b['name'], first[:600]))
            r = subprocess.run([exe, '--shrink', raw, '--out', shr, '--budget', '3000'], capture_output=True,
                               text=True, env=ENV, errors='replace')
            if r.returncode != 10:
                # depends on what ran before it in the same process?
                again = [self.rerun_chunk(b, start, idx - start + 1) for _ in range(3)]
                if all(again):
                    path = self.save(b, None, first + ' (needs the preceding cases of its run)',
                                     extra='start %d\ncount %d\nseed %d\n' % (start, idx - start + 1, self.seed))
                    return self.verdict(b, path, first)
                self.notes.append('case %d of %s failed once and did not reproduce: %s' % (idx, b['name'], first))
                self.log('  it does not reproduce; not reported')
                return True
            text = open(shr).read()
            ok, why = 0, ''
            for _ in range(3):
                r = subprocess.run([exe, '--replay', shr], capture_output=True, text=True, env=ENV, errors='replace')
                if r.returncode != 0:
                    ok += 1
                    m = re.search(r'FAILED: (.*)', r.stdout, re.S)
                    why = m.group(1).strip() if m else san_summary(r.stderr) or 'signal/exit %d' % r.returncode
            if ok < 3:
                self.notes.append('case %d of %s: minimal case failed %d of 3 times: %s' % (idx, b['name'], ok, first))
                self.log('  its minimal form fails only %d of 3 times; not reported' % ok)
                return True
            path = self.save(b, text, why)
            return self.verdict(b, path, why)

    def rerun_chunk(self, b, start, count):
        exe = os.path.join(self.work, b['name'])
        r = subprocess.run([exe, '--seed', str(self.seed), '--start', str(start), '--count', str(count), '--out',
                            exe + '.again.json', '--status', exe + '.again.status'], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, env=ENV)
        return r.returncode != 0

    def save(self, b, text, why, extra=None):
        d = os.path.join(VERIF, 'out', 'replays')
        os.makedirs(d, exist_ok=True)
        body = text if text is not None else extra
        h = hashlib.sha1((b['name'] + body).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s-%s.replay' % (self.pid, b['name'], h))
        with open(path, 'w') as f:
            f.write('# property %s\n# harness %s\n' % (self.pid, b['name']))
            f.write('# replay with: python3 %s --replay %s\n' % (os.path.join(VERIF, 'check.py'), path))
            if text is None:
                f.write('# ' + why.replace('\n', '\n# ') + '\nrun\n')
            f.write(body)
        return path

    def verdict(self, b, path, why):
        for k in known_findings(self.pid):
            if re.search(k['match'], why, re.S):
                if k['text'] not in [n[1] for n in self.results if n[0] == 'known']:
                    self.results.append(('known', k['text']))
                return True
        self.failures.append((path, why))
        self.stop.set()
        for p in list(self.procs):
            try:
                p.kill()
            except OSError:
                pass
        return False

    # -- coverage guided search (thorough tier)
    def fuzz(self, b, runs, k):
        exe = os.path.join(self.work, b['name'] + '-fuzz')
        d = os.path.join(self.work, 'corpus-%s-%d' % (b['name'], k))
        os.makedirs(d, exist_ok=True)
        st = d + '.status'
        env = dict(ENV, PBT_STATUS=st)
        env['ASAN_OPTIONS'] += ':handle_abort=2'
        with open(d + '.err', 'w') as ef:
            p = subprocess.Popen([exe, '-runs=%d' % runs, '-seed=%d' % (self.seed * 1000 + k + 1), '-max_len=1500',
                                  '-len_control=20', '-timeout=120', '-rss_limit_mb=3500', '-print_final_stats=1',
                                  '-max_total_time=%d' % b.get('fuzz_time', 150),
                                  '-artifact_prefix=' + d + '/crash-', d],
                                 stdout=subprocess.DEVNULL, stderr=ef, env=env)
            with self.lock:
                self.procs.add(p)
            rc = p.wait()
            with self.lock:
                self.procs.discard(p)
        if self.stop.is_set():
            return
        err = open(d + '.err', errors='replace').read()
        m = re.search(r'number_of_executed_units:\s*(\d+)', err)
        with self.lock:
            self.fuzz_runs += int(m.group(1)) if m else 0
        if rc != 0:
            s = read_status(st)
            if s and s[3]:
                self.failed(b, s, err, s[0])

    def run(self):
        t0 = time.time()
        bins = self.cfg['bins']
        thorough = self.tier == 'thorough'
        fz = [b for b in bins if thorough and b.get('fuzz', 1)]
        bld = Build(self.work)
        with ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(lambda a: bld.build(*a), [(b, False) for b in bins] + [(b, True) for b in fz]) if e]
        if errs:
            self.log('cannot build:\n' + '\n'.join(errs))
            return 2
        t1 = time.time()
        jobs = []
        for b in bins:
            n = b['thorough'] if thorough else b['quick']
            parts = max(1, min(n, b.get('parts', NCPU * 2)))
            for k in range(parts):
                a, z = n * k // parts, n * (k + 1) // parts
                jobs.append((b, a, z - a, k))
        jobs.sort(key=lambda j: j[3])
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda j: self.chunk(*j), jobs))
        if fz and not self.stop.is_set():
            per = max(1, NCPU // len(fz))
            with ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(lambda j: self.fuzz(*j), [(b, b.get('fuzz_runs', 200000), k) for k in range(per) for b in fz]))
        t2 = time.time()
        rc = self.finish(t0, t1, t2)
        shutil.rmtree(self.work, ignore_errors=True)
        return rc

    def finish(self, t0, t1, t2):
        res = [r for n, r in self.results if n != 'known']
        known = [r for n, r in self.results if n == 'known']
        labels, digests, samples, per = {}, set(), [], {}
        for n, r in self.results:
            if n == 'known':
                continue
            per[n] = per.get(n, 0) + r['evaluations']
            for l, c in r['labels'].items():
                labels[l] = labels.get(l, 0) + c
            digests |= {n + d for d in r['digests']}
            if len(samples) < 6 and r['samples'] and (len(bins_of(samples)) < 3 or n not in bins_of(samples)):
                samples.append({'harness': n, 'case': r['samples'][0]})
        ev = sum(r['evaluations'] for r in res)
        for l in self.cfg.get('need', []):
            if not self.failures and labels.get(l, 0) == 0 and ev > 0:
                self.notes.append('no case of class "%s" was generated' % l)
        viol = [f for f in self.failures if f]
        cov = {'evaluations': ev + self.fuzz_runs, 'distinct_nontrivial': len(digests), 'rule': self.cfg['rule'],
               'samples': samples or [{'note': 'the run stopped at a failure'}],
               'classes': dict(sorted(labels.items())), 'cases_per_harness': per,
               'discarded': sum(r['discarded'] for r in res),
               'choices_drawn': sum(r['choices'] for r in res),
               'coverage_guided_runs': self.fuzz_runs,
               'build_s': round(t1 - t0, 1), 'search_s': round(t2 - t1, 1)}
        if self.notes:
            cov['notes'] = self.notes
        if viol:
            cov['failures'] = [{'replay': p, 'what': w[:2000]} for p, w in viol]
        e = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
             'assumptions': self.cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1),
             'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(e, f, indent=1)
        for k in known:
            self.log('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for n in self.notes:
            self.log('note: ' + n)
        if viol:
            path, why = viol[0]
            self.log('what fails: ' + why[:3000])
            self.log('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.failures:
            return 2
        self.log('%s held: %d cases (%d distinct non-trivial), %.0f s' %
                 (self.pid, ev + self.fuzz_runs, len(digests), time.time() - t0))
        return 0


def bins_of(samples):
    return {s['harness'] for s in samples}


def known_findings(pid):
    """lines `finding: property=<id> match=/<regex>/ <what fails>`; `fixed:` lines suppress nothing"""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l)
            if m and m.group(1) == pid:
                out.append({'match': m.group(2), 'text': m.group(3).strip()})
    except OSError:
        pass
    return out


def replay(path):
    text = open(path).read()
    pid = re.search(r'# property (\S+)', text).group(1)
    name = re.search(r'# harness (\S+)', text).group(1)
    b = [x for x in CHECKS[pid]['bins'] if x['name'] == name][0]
    work = os.path.join(VERIF, 'out', 'work', 'replay-%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        e = Build(work).build(b)
        if e:
            print(e)
            return 2
        m = re.search(r'\nrun\nstart (\d+)\ncount (\d+)\nseed (\d+)', text)
        exe = os.path.join(work, name)
        if m:
            return subprocess.run([exe, '--start', m[1], '--count', m[2], '--seed', m[3], '--out', '/dev/null'], env=ENV).returncode
        return subprocess.run([exe, '--replay', path], env=dict(ENV, PBT_VERBOSE='1')).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true', help='the toolchain is there and builds a harness')
    a = ap.parse_args()
    if a.selftest:
        return subprocess.run([CXX, '--version']).returncode
    if a.replay:
        return replay(a.replay)
    r = Runner(a.id, 'thorough' if a.tier == 'thorough' else 'quick', a.seed)
    try:
        return r.run()
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
