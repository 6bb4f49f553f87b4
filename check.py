#!/usr/bin/env python3
"""Builds the harness of one property from the current tree of the repository and runs it.

  check.py C01 [--tier quick|thorough] [--seed N]
  check.py C01 --replay FILE      re-runs a saved failure

Exit 0: property held on everything explored. Exit 1: VIOLATION line.
Anything else is an error of the check itself.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from props import PROPS

CXX = 'g++'
FLAGS = ['-std=c++11', '-O1', '-g1', '-w', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
         '-ftrivial-auto-var-init=pattern', '-fmax-errors=5']
# For what is about threads. Fresh memory is up to the harness
THREAD_FLAGS = ['-std=c++11', '-O1', '-g1', '-w', '-DNDEBUG', '-fsanitize=thread', '-fmax-errors=5']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=127:'
           'detect_stack_use_after_return=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:abort_on_error=0',
           UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0', LC_ALL='C', TZ='UTC')
WORKERS = 8


def includes(pid):
    return ['-I' + REPO + '/src/lib', '-I' + REPO + '/src/objloader', '-I' + HERE + '/harness']


def compile_one(src, obj, pid, flags):
    defs = PROPS[pid].get('defs', [])
    cmd = [CXX] + flags + defs + includes(pid) + ['-c', src, '-o', obj]
    for attempt in (1, 2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env=ENV)
        if p.returncode == 0:
            return None
    return (src, p.returncode, p.stdout)


def build(pid, tmp):
    if not PROPS[pid].get('threads'):
        return build_with(pid, tmp, FLAGS, ['-fsanitize=address,undefined'])
    exe, errs = build_with(pid, tmp, THREAD_FLAGS, ['-fsanitize=thread', '-lpthread'])
    if exe:
        p = subprocess.run([exe, '--scratch', tmp, '--seed', '1', '--mult', '0.001', '--workers', '1', '--only', 'no such law', '--out', tmp + '/trial.json'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', env=dict(ENV, VERIF_BIN=tmp))
        if p.returncode and 'FATAL: ThreadSanitizer' in p.stdout:
            print('warning: the thread sanitizer does not run here, racing accesses are only found by their results')
            return build_with(pid, tmp, [f for f in THREAD_FLAGS if f != '-fsanitize=thread'], ['-lpthread'])
    return exe, errs


def build_with(pid, tmp, flags, link):
    srcs = sorted(glob.glob(HERE + '/harness/%s/*.cpp' % pid)) + [HERE + '/harness/engine.cpp', HERE + '/harness/translate.cpp']
    srcs += [REPO + '/' + s for s in PROPS[pid].get('repo_sources', [])]
    objs = [tmp + '/%d.o' % i for i in range(len(srcs))]
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(lambda a: compile_one(a[0], a[1], pid, flags), zip(srcs, objs)) if e]
    if errs:
        return None, errs
    exe = tmp + '/harness'
    p = subprocess.run([CXX] + objs + link + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, env=ENV)
    if p.returncode != 0:
        return None, [('link', p.returncode, p.stdout)]
    return exe, None


def build_programs(pid, tmp):
    """Example programs of the repository, built from its current sources."""
    out = []
    for name, src in PROPS[pid].get('programs', {}).items():
        out.append((name, REPO + '/' + src))
    if not out:
        return None
    extra = REPO + '/src/objloader/loader/MeshObjLoader.cpp'
    obj = tmp + '/objloader.o'

    def one(a):
        name, src = a
        cmd = [CXX, '-std=c++11', '-O2', '-g1', '-w', '-DNDEBUG'] + includes(pid)
        if name == '':
            cmd += ['-c', src, '-o', obj]
        else:
            cmd += ['-c', src, '-o', tmp + '/' + name + '.o']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env=ENV)
        return (src, p.returncode, p.stdout) if p.returncode else None
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(one, out + [('', extra)]) if e]
    if errs:
        return errs
    for name, _ in out:
        p = subprocess.run([CXX, tmp + '/' + name + '.o', obj, '-o', tmp + '/' + name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, env=ENV)
        if p.returncode:
            return [(name, p.returncode, p.stdout)]
    return None


def write_evidence(pid, tier, seed, cov, wall, violations, assumptions):
    os.makedirs(HERE + '/evidence', exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    tmp = HERE + '/evidence/.%s.tmp' % pid
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(tmp, HERE + '/evidence/%s.json' % pid)


def save_replay(pid, text):
    d = HERE + '/replays'
    os.makedirs(d, exist_ok=True)
    path = d + '/%s-%s.txt' % (pid, hashlib.sha1(text.encode()).hexdigest()[:10])
    with open(path, 'w') as f:
        f.write(text)
    return path


def block(title, text):
    return ''.join('# %s%s\n' % (title if i == 0 else ' ' * len(title), l) for i, l in enumerate((text or '').split('\n')))


def known_findings(pid):
    r = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                r.append(l.split(' ', 2)[2])
    except OSError:
        pass
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--mult', type=float)
    ap.add_argument('--only')
    a = ap.parse_args()
    pid, t0 = a.id, time.time()
    cfg = PROPS[pid]
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return run(a, pid, cfg, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, pid, cfg, tmp, t0):
    seed = a.seed & 0xffffffffffffffff
    exe, errs = build(pid, tmp)
    if errs is None:
        errs = build_programs(pid, tmp)
    if errs:
        src, rc, out = errs[0]
        sys.stdout.write(out[:4000] + '\n')
        if rc == 1 and ' error: ' in out and (REPO + '/src') in out:
            # The public interface, as every user of this part writes it, does not compile any more
            path = save_replay(pid, 'property: %s\nkind: build\n' % pid + block('source: ', src) + block('', out[:6000]))
            write_evidence(pid, a.tier, seed, {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': cfg['rule'], 'samples': [],
                                               'explanation': 'harness does not compile against the tree'}, time.time() - t0, 1, cfg['assumptions'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        print('ERROR: could not build the harness of %s (%s)' % (pid, src))
        return 2
    build_s = time.time() - t0
    env = dict(ENV, VERIF_BIN=tmp)

    if a.replay:
        p = subprocess.run([exe, '--scratch', tmp, '--replay', os.path.abspath(a.replay)], env=env)
        return p.returncode

    mult = a.mult if a.mult else cfg['mult'] * (1.0 if a.tier == 'quick' else cfg.get('thorough', 12.0))
    limit = 780 if a.tier == 'quick' else 6 * 3600
    res = None
    unconfirmed = []
    for attempt in range(3):
        out = tmp + '/result.json'
        cmd = [exe, '--scratch', tmp, '--seed', str(seed), '--mult', repr(mult), '--workers', str(WORKERS), '--out', out]
        if a.only:
            cmd += ['--only', a.only]
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, universal_newlines=True,
                               timeout=max(60, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            print('ERROR: the harness of %s did not finish in time' % pid)
            return 2
        try:
            with open(out) as f:
                res = json.load(f)
        except (OSError, ValueError) as e:
            print('ERROR: no result from the harness of %s: %s\n%s' % (pid, e, p.stderr[-2000:]))
            return 2
        if res['ok'] or res['confirmed']:
            break
        unconfirmed.append(res)
        if time.time() - t0 > limit / 2:
            break

    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    wall = time.time() - t0
    if res['ok'] and unconfirmed:
        print('warning: a failure of %s could not be reproduced: %s' % (pid, unconfirmed[0]['first_message'][:300]))
    if res['ok']:
        cov = {'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct_nontrivial'], 'rule': cfg['rule'],
               'samples': res['samples'], 'laws': res['laws'], 'labels': res['labels'], 'discarded': res['discarded'],
               'build_s': round(build_s, 1), 'explore_s': round(res['wall'], 1), 'unreproduced_failures': len(unconfirmed)}
        write_evidence(pid, a.tier, seed, cov, wall, 0, cfg['assumptions'])
        print('%s: held on %d cases (%d distinct non-trivial) in %d laws, %.1f s' % (pid, res['evaluations'], res['distinct_nontrivial'], len(res['laws']), wall))
        return 0

    text = 'property: %s\nlaw: %s\nkind: %s\nseed: %d\nindex: %d\nworker: %d %d\nchoices: %s\n' % (
        pid, res['law'], res['kind'] if res['confirmed'] else 'sequence', seed, res['index'], res['worker'], res['workers'], ' '.join(map(str, res['choices'])))
    text += block('case: ', res['notes']) + block('failure: ', res['message'])
    text += '# re-run with: python3 /verif/check.py %s --replay <this file>\n' % pid
    path = save_replay(pid, text)
    cov = {'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct_nontrivial'], 'rule': cfg['rule'],
           'samples': [{'law': res['law'], 'case': res['notes'][:1500], 'failure': res['message'][:1500]}]}
    write_evidence(pid, a.tier, seed, cov, wall, 1, cfg['assumptions'])
    print('law: %s\n%s\n%s' % (res['law'], res['notes'][:3000], res['message'][:3000]))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


if __name__ == '__main__':
    sys.exit(main())
