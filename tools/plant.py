#!/usr/bin/env python3
"""Plants bugs for trying out the checks (development only, no check uses this).

  plant.py SPEC.py [ID...]    SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old, new)], demo, needs, breaks, src=[])]

Each bug is applied to a scratch copy of /repo, must build and pass the stable tests there, its demo must pass
without and fail with it; then the check of its property runs against the copy. Bugs that are confirmed are kept in
/verif/seeded/<id>, whether they are caught or not; the result goes to /verif/tools/detection.json.
"""
import json, os, shutil, subprocess, sys, concurrent.futures, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
FIXES = {l[:39] for l in subprocess.check_output('git -C /repo log --format=%H ead4ca6..HEAD', shell=True, universal_newlines=True).split('\n') if l}
LOCK = threading.Lock()
DEMO = '''#!/bin/sh
# Compiles demo.cpp against the sources in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -O1 -w -DNDEBUG -I"$repo/src/lib" -I"$repo/src/objloader" "$here/demo.cpp"%s -o "$tmp/demo"%s || exit 2
cd "$tmp" && timeout 60 ./demo
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout


def prepare(wt):
    if not os.path.isdir(wt):
        sh('git clone -q /repo %s' % wt)
    sh('git fetch -q && git reset -q --hard origin/HEAD; git checkout -q -- .; git clean -fdq -e _build', cwd=wt)
    sh('git checkout -q --detach %s' % sh('git -C /repo rev-parse HEAD')[1].strip(), cwd=wt)


def tests(wt):
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/repo', wt).replace('/opt/vp/build.sh', wt + '/../' + os.path.basename(wt) + '.build.sh')
        open(wt + '.' + n, 'w').write(t)
    out = wt + '.out.json'
    rc, log = sh('bash %s.test.sh %s' % (wt, out))
    r = json.load(open(out))
    return STABLE - set(r['passed']), log


def one(bug, wt):
    prepare(wt)
    log = []
    for f, old, new in [((bug['file'],) + e) if len(e) == 2 else e for e in bug['edits']]:
        p = wt + '/' + f
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != 1:
            return 'BAD edit: %d matches of %r' % (s.count(old), old[:60])
        open(p, 'w', newline='').write(s.replace(old, new))
    import re
    for fn in sh('git diff --name-only', cwd=wt)[1].split():
        removed = set()
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- %s' % fn, cwd=wt)[1], re.M):
            removed |= set(range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)))
        if not removed:
            return 'BAD changes no line of %s' % fn
        bl = sh('git -C /repo blame -s -l HEAD -- %s' % fn)[1].split('\n')
        new = [bl[i - 1] for i in sorted(removed) if bl[i - 1][:40].lstrip('^')[:39] in FIXES]
        if new:
            return 'BAD changes a line of a fix: %s' % new[:3]
    d = wt + '.demo'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'wb').write(subprocess.run(['git', 'diff'], cwd=wt, stdout=subprocess.PIPE).stdout)
    open(d + '/demo.cpp', 'w').write(bug['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO % (''.join(' "$repo/%s"' % s for s in bug.get('src', [])), ' ' + bug['flags'] if bug.get('flags') else ''))
    json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    rc, o = sh('sh %s/demo.sh' % d, cwd='/repo')
    if rc != 0:
        return 'BAD demo fails on the unchanged tree (%d): %s' % (rc, o[-1500:])
    rc, o = sh('sh %s/demo.sh' % d, cwd=wt)
    if rc == 0 or rc == 2:
        return 'BAD demo does not fail with the bug (%d): %s' % (rc, o[-1500:])
    miss, o = tests(wt)
    if miss:
        return 'BAD tests fail: %s %s' % (sorted(miss)[:5], o[-800:] if len(miss) > 200 else '')
    dst = HERE + '/seeded/' + bug['id']
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    res = {}
    for pid in [bug['prop']] + bug.get('also', []):
        rc, o = sh('python3 %s/check.py %s' % (HERE, pid), env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick'))
        res[pid] = {0: 'missed', 1: 'caught'}.get(rc, 'ERROR %d' % rc)
        if rc == 1:
            log.append(o.strip().split('\n')[-2][:160] if len(o.strip().split('\n')) > 1 else o)
        elif rc:
            log.append(o[-500:])
    with LOCK:
        f = HERE + '/tools/detection.json'
        j = json.load(open(f)) if os.path.exists(f) else {}
        j.setdefault(bug['id'], {}).update(res)
        json.dump(j, open(f, 'w'), indent=1, sort_keys=True)
    return '%s %s' % (res, ' | '.join(log))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    n = int(os.environ.get('PLANT_JOBS', '3'))
    import queue
    q = queue.Queue()
    for i in range(n):
        q.put('/tmp/plant/wt%d' % i)
    os.makedirs('/tmp/plant', exist_ok=True)

    def go(b):
        wt = q.get()
        try:
            r = one(b, wt)
        except Exception as e:
            r = 'EXC %r' % e
        finally:
            q.put(wt)
        with LOCK:
            print(b['id'], r, flush=True)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        list(ex.map(go, bugs))


main()
