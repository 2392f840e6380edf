#!/usr/bin/env python3
"""Decides one property: check.py <ID> [quick|thorough]

Builds the sources of /repo's working tree together with the property's harness, then searches for a failing case:
fixed regressions, seeded random generation on the plain -O2 build, the same on an AddressSanitizer/UBSan build, and in
the thorough tier coverage guided generation (libFuzzer) on top. A failure is shrunk to a minimal choice sequence,
written to a replay file, and replayed before it is reported.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
NCPU = os.cpu_count() or 8

FLAVOURS = {
    'plain': ('g++', ['-O2', '-g']),
    'asan': ('g++', ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']),
    'tsan': ('g++', ['-O1', '-g', '-fsanitize=thread', '-fno-omit-frame-pointer']),
    'memcheck': ('g++', ['-O1', '-g', '-DPBT_MEMCHECK']),
    'fuzz': ('clang++', ['-O1', '-g', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all', '-DPBT_FUZZ']),
}

# cases of the quick tier on the plain and the sanitized build; thorough multiplies and adds libFuzzer
CASES = json.load(open(os.path.join(VERIF, 'cases.json')))


class Broken(Exception):
    """The check itself cannot give an answer"""


def sources():
    cpp = sorted(glob.glob(REPO + '/cpp/**/*.cpp', recursive=True) + glob.glob(REPO + '/utils/**/*.cpp', recursive=True))
    hdr = []
    for d in ('cpp', 'utils'):
        for e in ('h', 'hpp', 'hxx', 'inc'):
            hdr += glob.glob('%s/%s/**/*.%s' % (REPO, d, e), recursive=True)
    return cpp, sorted(hdr)


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def compile_one(args):
    cmd, out = args
    tmp = out + '.tmp%d' % os.getpid()
    r = sh(cmd + ['-o', tmp])
    if r.returncode != 0:
        raise Broken('cannot compile: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    os.rename(tmp, out)


def build(jobs):
    """jobs: list of (harness source, flavour) -> {(harness, flavour): binary}"""
    cpp, hdr = sources()
    inc = ['-I' + REPO + '/cpp', '-I' + REPO + '/utils']
    todo, res, links = [], {}, []
    for flavour in sorted(set(f for _, f in jobs)):
        cxx, flags = FLAVOURS[flavour]
        key = digest(cpp + hdr, 'lib' + cxx + ' '.join(flags))
        d = os.path.join(BUILD, flavour + '-' + key)
        os.makedirs(d, exist_ok=True)
        lflags = [f.replace('fuzzer,', 'fuzzer-no-link,') for f in flags]
        objs = []
        for c in cpp:
            o = os.path.join(d, os.path.relpath(c, REPO).replace('/', '_') + '.o')
            objs.append(o)
            if not os.path.exists(o):
                todo.append(([cxx, '-std=gnu++17', '-w'] + lflags + inc + ['-c', c], o))
        for h, f in jobs:
            if f != flavour:
                continue
            hk = digest([h] + sorted(glob.glob(HARNESS + '/*.h')))
            b = os.path.join(d, os.path.basename(h)[:-4] + '-' + hk)
            res[(h, f)] = b
            if not os.path.exists(b):
                ho = b + '.o'
                if not os.path.exists(ho):
                    todo.insert(0, ([cxx, '-std=gnu++17', '-w'] + lflags + inc + ['-I' + HARNESS, '-c', h], ho))
                links.append(([cxx] + flags + [ho] + objs + ['-llapack', '-lblas', '-ldl'], b))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(compile_one, todo))
        list(ex.map(compile_one, links))
    return res


def known_findings(pid):
    """[(key, what)] of the recorded, unrepaired defects of this property"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.evals = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.phases = []
        self.notes = []
        self.violation = None
        self.rule = ''
        self.tmp = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        os.makedirs(REPLAYS, exist_ok=True)

    def env(self, flavour):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
        e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0:second_deadlock_stack=0:history_size=4'
        e['OPENBLAS_NUM_THREADS'] = '1'
        e['OMP_NUM_THREADS'] = '1'
        e['LC_ALL'] = 'C'
        return e

    def stats(self, path):
        n = nt = 0
        for f in glob.glob(path + '.[0-9]*') + ([path] if os.path.isfile(path) else []):
            for line in open(f, errors='replace'):
                w = line.rstrip('\n').split(' ', 2)
                if w[0] == 'evaluations':
                    n += int(w[1])
                elif w[0] == 'nontrivial':
                    nt += int(w[1])
                elif w[0] == 'label':
                    self.labels[w[2]] = self.labels.get(w[2], 0) + int(w[1])
                elif w[0] == 'h':
                    self.hashes.add(w[1])
        self.evals += n
        if os.path.exists(path + '.samples'):
            for line in open(path + '.samples', errors='replace'):
                if re.match(r'case \d+ ', line) and len(self.samples) < 8:
                    self.samples.append(line.strip()[:1600])
                elif self.samples and len(self.samples[-1]) < 1600:
                    self.samples[-1] += ' ' + line.strip()[:400]
        return n, nt

    def replay(self, binary, flavour, path, times=3):
        """number of failures among `times` replays"""
        n = 0
        for _ in range(times):
            r = sh([binary, 'replay', path], env=self.env(flavour))
            n += r.returncode == 1
        return n

    def fail(self, binary, flavour, replay, output):
        n = self.replay(binary, flavour, replay)
        if n == 0:
            self.notes.append('a failure of the %s build did not reproduce on replay: %s' % (flavour, output[:300]))
            return False
        dst = os.path.join(REPLAYS, '%s-%s-%d.txt' % (self.pid, flavour, self.seed))
        shutil.copy(replay, dst)
        self.violation = (dst, output)
        return True

    def run(self, binary, flavour, cases, budget, seed=None, regress=True):
        t = time.time()
        seed = self.seed if seed is None else seed
        st = os.path.join(self.tmp, flavour + str(seed))
        rp = st + '.replay'
        for attempt in range(2):
            r = sh([binary, 'run', '--seed', str(seed), '--cases', str(cases), '--time', str(budget), '--shards', str(NCPU),
                    '--stats', st, '--replay', rp, '--regress', '1' if regress else '0'], env=self.env(flavour))
            out = r.stdout
            if r.returncode == 0:
                break
            if r.returncode == 1:
                if self.fail(binary, flavour, rp, out):
                    break
                continue
            if r.returncode == 3:  # a failing case that passes on its own: try everything again
                self.notes.append('%s: %s' % (flavour, out.strip()[-200:]))
                continue
            raise Broken('harness exit %d: %s' % (r.returncode, out[-2000:]))
        n, nt = self.stats(st)
        self.phases.append({'build': flavour, 'seed': seed, 'cases': n, 'nontrivial': nt, 'wall_s': round(time.time() - t, 1),
                            'result': out.strip().split('\n')[-1][:200] if not self.violation else 'FAILED'})
        return self.violation is None

    def fuzz(self, fuzzer, asan, seconds, jobs):
        """coverage guided: `jobs` libFuzzer processes that share a corpus"""
        t = time.time()
        corpus = os.path.join(self.tmp, 'corpus')
        os.makedirs(corpus, exist_ok=True)
        procs = []
        for j in range(jobs):
            e = self.env('fuzz')
            st = os.path.join(self.tmp, 'fuzz%d' % j)
            e['PBT_FUZZ_STATS'] = st
            art = os.path.join(self.tmp, 'art%d-' % j)
            log = open(os.path.join(self.tmp, 'fuzz%d.log' % j), 'w')
            cmd = [fuzzer, corpus, '-max_total_time=%d' % seconds, '-seed=%d' % (self.seed * 100 + j + 1), '-max_len=1200',
                   '-artifact_prefix=' + art, '-rss_limit_mb=3000', '-timeout=60', '-reload=10', '-print_final_stats=1',
                   '-use_value_profile=%d' % (j % 2), '-detect_leaks=0']
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, env=e), st, art))
        bad = None
        end = time.time() + seconds + 60
        for p, st, art in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.send_signal(signal.SIGKILL)
                p.wait()
            arts = sorted(glob.glob(art + '*'))
            if arts and not bad:
                bad = arts[0]
        n = nt = 0
        for p, st, art in procs:
            a, b = self.stats(st)
            n += a
            nt += b
        self.phases.append({'build': 'libFuzzer', 'cases': n, 'nontrivial': nt, 'wall_s': round(time.time() - t, 1),
                            'corpus': len(os.listdir(corpus))})
        if bad:
            rp = os.path.join(self.tmp, 'fuzz.replay')
            r = sh([asan, 'bytes', bad, '--replay', rp], env=self.env('asan'))
            if r.returncode == 1:
                self.fail(asan, 'asan', rp, r.stdout)
            else:
                self.notes.append('libFuzzer stopped on %s, which passes when run alone' % os.path.basename(bad))

    def valgrind(self, binary, cases, budget):
        """undefined values: a few cases under memcheck"""
        t = time.time()
        procs, n, nt = [], 0, 0
        for j in range(NCPU):
            st, log, seed = os.path.join(self.tmp, 'vg%d' % j), os.path.join(self.tmp, 'vg%d.log' % j), self.seed * 100 + j
            procs.append((subprocess.Popen(
                ['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--log-file=' + log, binary, 'serial', '--seed', str(seed),
                 '--cases', str(cases // NCPU), '--time', str(budget), '--stats', st],
                env=self.env('plain'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), st, log, seed))
        for p, st, log, seed in procs:
            rc = p.wait()
            x, y = self.stats(st)
            n, nt = n + x, nt + y
            if rc == 99 and not self.violation:
                text = open(log, errors='replace').read()
                dst = os.path.join(REPLAYS, '%s-memcheck-%d.txt' % (self.pid, self.seed))
                with open(dst, 'w') as o:
                    o.write('property %s\nmemcheck: valgrind %s serial --seed %d --cases %d\n%s' %
                            (self.pid, binary, seed, cases // NCPU, text[:6000]))
                self.violation = (dst, 'memcheck: ' + text[:600])
        self.phases.append({'build': 'memcheck', 'cases': n, 'nontrivial': nt, 'wall_s': round(time.time() - t, 1)})

    def finish(self, assumptions):
        known = known_findings(self.pid)
        for key, what in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        cov = {
            'evaluations': self.evals,
            'distinct_nontrivial': len(self.hashes),
            'rule': self.rule,
            'samples': self.samples or ['none: the run stopped at a violation before samples were taken'],
            'labels': dict(sorted(self.labels.items(), key=lambda p: -p[1])[:60]),
            'phases': self.phases,
        }
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': 1 if self.violation else 0}
        tmp = os.path.join(EVIDENCE, self.pid + '.json.tmp')
        with open(tmp, 'w') as o:
            json.dump(ev, o, indent=1)
            o.write('\n')
        os.rename(tmp, os.path.join(EVIDENCE, self.pid + '.json'))
        shutil.rmtree(self.tmp, ignore_errors=True)
        print('%s %s: %d cases, %d distinct non-trivial, %.1f s' % (self.pid, self.tier, self.evals, len(self.hashes), time.time() - self.t0))
        for n in self.notes:
            print('note:', n)
        if self.violation:
            print(self.violation[1][:3000])
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violation[0]))
            return 1
        return 0


ASSUME = ['the compiler, libstdc++ and LAPACK are correct',
          'tolerances are those of the property statement; inputs are the generator\'s, not all inputs']


def clean_builds():
    ds = sorted((d for d in glob.glob(BUILD + '/*') if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-24]:
        shutil.rmtree(d, ignore_errors=True)


def cpp_check(pid, tier):
    cfg = CASES[pid]
    c = Check(pid, tier)
    h = os.path.join(HARNESS, pid.lower() + '.cpp')
    second = 'tsan' if 'tsan' in cfg else 'asan'
    jobs = [(h, 'plain'), (h, second)]
    if tier == 'thorough' and second == 'asan':
        jobs.append((h, 'fuzz'))
    if cfg.get('valgrind') and shutil.which('valgrind'):
        jobs.append((h, 'memcheck'))
    b = build(jobs)
    plain, asan = b[jobs[0]], b[jobs[1]]
    c.rule = sh([plain, 'rule'], env=c.env('plain')).stdout.strip()
    runs = sh([asan, 'rule'], env=c.env(second)).returncode == 0
    if not runs and second == 'tsan':
        c.notes.append('programs built with ThreadSanitizer do not start here')
    if tier == 'quick':
        ok = c.run(plain, 'plain', cfg['plain'], 150)
        ok = ok and (runs or second == 'asan') and c.run(asan, second, cfg[second], 90, seed=c.seed + 1000)
        if ok and jobs[-1][1] == 'memcheck':
            c.valgrind(b[jobs[-1]], cfg['valgrind'], 60)
    else:
        ok = c.run(plain, 'plain', cfg['plain'] * 1000, 240, seed=c.seed + 7)
        ok = ok and (runs or second == 'asan') and c.run(asan, second, cfg[second] * 1000, 150 if second == 'asan' else 330, seed=c.seed + 2000)
        if ok and second == 'asan':
            c.fuzz(b[(h, 'fuzz')], asan, 180, NCPU)
        if not c.violation and jobs[-1][1] == 'memcheck':
            c.valgrind(b[jobs[-1]], cfg['valgrind'] * 10, 120)
    return c.finish(ASSUME)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(BUILD, exist_ok=True)
    try:
        clean_builds()
        if pid == 'C18':
            sys.path.insert(0, os.path.join(VERIF, 'pyharness'))
            import c18
            return c18.check(sys.modules[__name__], tier)
        return cpp_check(pid, tier)
    except Broken as e:
        print('check %s could not run: %s' % (pid, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
