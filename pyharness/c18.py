"""C18: the Python package, decided with generated programs (c18_worker.py) against a copy of it made from the working tree"""
import glob
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
WORKER = os.path.join(HERE, 'c18_worker.py')
PYTHON = '/usr/local/bin/python3-vt'
FLAGS = {'plain': ['-O2', '-g'],
         'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']}


def package(main, c, flavour):
    """a directory that holds the package sigrid, with the library compiled from the working tree"""
    root = os.path.join(c.tmp, flavour)
    pkg = os.path.join(root, 'sigrid')
    os.makedirs(pkg)
    cpp, hdr = main.sources()
    flags = FLAGS[flavour] + ['-fPIC']
    d = os.path.join(main.BUILD, 'py%s-%s' % (flavour, main.digest(cpp + hdr, ' '.join(flags))))
    os.makedirs(d, exist_ok=True)
    todo, objs = [], []
    for s in cpp:
        o = os.path.join(d, os.path.relpath(s, main.REPO).replace('/', '_') + '.o')
        objs.append(o)
        if not os.path.exists(o):
            todo.append((['g++', '-std=gnu++17', '-w'] + flags + ['-I' + main.REPO + '/cpp', '-I' + main.REPO + '/utils', '-c', s], o))
    with main.ThreadPoolExecutor(main.NCPU) as ex:
        list(ex.map(main.compile_one, todo))
    so = os.path.join(d, 'libsigrid.so')
    if not os.path.exists(so):
        main.compile_one((['g++', '-shared'] + flags + objs + ['-llapack', '-lblas'], so))
    shutil.copy(so, os.path.join(pkg, 'libsigrid.so'))
    for f in glob.glob(main.REPO + '/py/**/*.py', recursive=True):
        dst = os.path.join(pkg, os.path.relpath(f, main.REPO + '/py'))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy(f, dst)
    return root


def environment(c, flavour):
    e = c.env(flavour)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e.pop('PYTHONPATH', None)
    if flavour == 'asan':
        libs = [subprocess.run(['g++', '-print-file-name=' + l], stdout=subprocess.PIPE, text=True).stdout.strip()
                for l in ('libasan.so', 'libubsan.so')]
        e['LD_PRELOAD'] = ' '.join(libs)
        e['PYTHONMALLOC'] = 'malloc'
    return e


def replay(c, flavour, root, path):
    """(reproduced, output)"""
    r = subprocess.run([PYTHON, WORKER, 'replay', root, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace', env=environment(c, flavour), cwd=c.tmp, timeout=300)
    # the library must not end the interpreter either, whatever the exit status
    lost = r.returncode == 0 and 'worker done' not in r.stdout
    return lost or r.returncode not in (0, 2), r.stdout + ('' if r.returncode == 1 else ' [exit %d]' % r.returncode)


def shrink_crash(c, flavour, root, case, path):
    """remove steps from a program that kills the interpreter"""
    t = time.time()
    ops = case['ops']
    i = len(ops) - 1
    while i >= 0 and time.time() - t < 60:
        trial = ops[:i] + ops[i + 1:]
        json.dump({'property': 'C18', 'case': {'ops': trial}}, open(path, 'w'))
        if trial and replay(c, flavour, root, path)[0]:
            ops = trial
        i -= 1
    json.dump({'property': 'C18', 'case': {'ops': ops}}, open(path, 'w'))


def with_history(c, flavour, root, path):
    """does the case fail after those that came before it in its process? Keep as few of them as it takes"""
    if not os.path.exists(path + '.history'):
        return False
    data = json.load(open(path + '.history'))
    past, m = data['history'], 1
    while past:
        data['history'] = past[-m:]
        json.dump(data, open(path, 'w'))
        if replay(c, flavour, root, path)[0]:
            return True
        if m >= len(past):
            break
        m = min(4 * m, len(past))
    return False


def run(main, c, flavour, cases, budget, seed):
    t = time.time()
    root = package(main, c, flavour)
    procs = []
    for j in range(main.NCPU):
        f = os.path.join(c.tmp, '%s%d' % (flavour, j))
        log = open(f + '.log', 'w')
        procs.append((f, subprocess.Popen(
            [PYTHON, WORKER, 'run', root, '--seed', str(seed * 1000 + j), '--cases', str(cases // main.NCPU), '--time', str(budget),
             '--stats', f + '.stats', '--replay', f + '.replay', '--current', f + '.current'],
            stdout=log, stderr=log, env=environment(c, flavour), cwd=c.tmp)))
    n = nt = 0
    for f, p in procs:
        try:
            rc = p.wait(max(1, t + budget + 150 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        text = open(f + '.log', errors='replace').read()
        if os.path.exists(f + '.stats'):
            s = json.load(open(f + '.stats'))
            n, nt = n + s['n'], nt + s['nt']
            c.hashes.update(s['hashes'])
            for k, v in s['labels'].items():
                c.labels[k] = c.labels.get(k, 0) + v
            c.samples += [x[:1600] for x in s['samples']][:8 - len(c.samples)]
        if rc == 0 and not os.path.exists(f + '.stats'):
            rc = 'exit status 0'
        if rc == 0 or c.violation:
            continue
        rp = f + '.replay'
        if rc == 1 and os.path.exists(rp):
            out = json.load(open(rp))['message']
        elif os.path.exists(f + '.current') and (isinstance(rc, str) or rc < 0 or 'Sanitizer' in text or 'runtime error' in text):
            # the interpreter died, or hangs, in the case that it was working on
            try:
                case = json.load(open(f + '.current'))['case']
            except ValueError:
                raise main.Broken('worker ended with %s\n%s' % (rc, text[-2000:]))
            shutil.copy(f + '.current', rp)
            try:
                if replay(c, flavour, root, rp)[0]:
                    shrink_crash(c, flavour, root, case, rp)
            except subprocess.TimeoutExpired:
                pass
            out = 'the interpreter ended with %s: %s' % (rc, text[:1500])
        else:
            raise main.Broken('worker ended with %s\n%s' % (rc, text[-2000:]))
        try:
            again = any([replay(c, flavour, root, rp)[0] for _ in range(3)]) or with_history(c, flavour, root, rp)
        except subprocess.TimeoutExpired:
            again = True
        if not again:
            c.notes.append('a failure of the %s build did not reproduce on replay: %s' % (flavour, out[:300]))
            continue
        dst = os.path.join(main.REPLAYS, 'C18-%s-%d.json' % (flavour, c.seed))
        shutil.copy(rp, dst)
        c.violation = (dst, out)
    c.evals += n
    c.phases.append({'build': flavour, 'seed': seed, 'cases': n, 'nontrivial': nt, 'wall_s': round(time.time() - t, 1)})
    return c.violation is None


def check(main, tier):
    cfg = main.CASES['C18']
    c = main.Check('C18', tier)
    sys.path.insert(0, HERE)
    c.rule = subprocess.run([PYTHON, '-c', 'import sys; sys.path.insert(0, %r); import c18_worker; print(c18_worker.RULE)' % HERE],
                            stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')).stdout.strip()
    if tier == 'quick':
        ok = run(main, c, 'plain', cfg['plain'], 60, c.seed)
        ok = ok and run(main, c, 'asan', cfg['asan'], 60, c.seed + 1000)
    else:
        ok = run(main, c, 'plain', cfg['plain'] * 1000, 300, c.seed + 7)
        ok = ok and run(main, c, 'asan', cfg['asan'] * 1000, 200, c.seed + 2000)
    return c.finish(main.ASSUME + ['CPython, numpy and ctypes are correct; programs are generated by Hypothesis'])
