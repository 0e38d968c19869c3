#!/opt/venv/bin/python
"""mkseed.py <id>: (re)creates /verif/seeded/<id> from tools/seed/<id>.py, which holds
PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (source of the demonstration).
mkseed.py --check <id>...: build, tests, demo with and without the change, checks with it."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(ROOT, 'tools', 'seed')


def load(sid):
    s = importlib.util.spec_from_file_location('seed_' + sid.replace('-', '_'), os.path.join(SRC, sid + '.py'))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def scratch():
    tmp = tempfile.mkdtemp(prefix='mkseed.')
    subprocess.check_call('git -C /repo archive HEAD pyee cmd/eetest testsuite/data | tar -x -C %s && cd %s && git init -q && git add -Af && '
                          'git -c user.name=x -c user.email=x commit -qm base' % (tmp, tmp), shell=True)
    return tmp


def make(sid):
    m = load(sid)
    out = os.path.join(ROOT, 'seeded', sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tmp = scratch()
    try:
        for f, old, new in m.EDITS:
            p = os.path.join(tmp, f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', tmp, 'diff'])
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    with open(os.path.join(out, 'node.py'), 'w') as f:
        f.write(open(os.path.join(ROOT, 'lib', 'mgr.py')).read() + open(os.path.join(SRC, 'tail.py')).read())
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write('"""%s"""\n' % m.BREAKS.strip() + m.DEMO.lstrip('\n'))
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport VERIF_REPO=$PWD\n'
                'exec timeout 250 /opt/venv/bin/python -B "$d/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS.strip()},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    return m


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def check(sid, pids=None):
    out = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(os.path.join(out, 'meta.json')))
    demo = 'bash %s/demo.sh' % out
    res = []
    tmp = scratch()
    env = dict(os.environ, VERIF_REPO=tmp)

    def tool(name):
        p = os.path.join(tmp, '..', os.path.basename(tmp) + name)
        open(p, 'w').write(open('/opt/vp/' + name).read().replace('/repo', tmp))
        return p
    build, test = tool('build.sh'), tool('test.sh')
    try:
        r = sh(demo, cwd=tmp)
        res.append('clean demo %d' % r.returncode)
        if r.returncode:
            print(r.stdout)
        subprocess.check_call(['git', '-C', tmp, 'apply', os.path.join(out, 'patch.diff')])
        r = sh('bash ' + build)
        res.append('build %d' % r.returncode)
        if r.returncode:
            print(r.stdout)
        r = sh('bash %s %s.json >/dev/null' % (test, tmp))
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open(tmp + '.json'))
        want = base.get('stable', base.get('passed', base))
        ok = set(want) <= set(got.get('passed', got))
        res.append('tests %s' % ('ok' if ok else 'FAIL'))
        r = sh(demo, cwd=tmp)
        res.append('demo %d (%s)' % (r.returncode, r.stdout.strip()[-150:]))
        for pid in pids or [meta['property']]:
            r = sh('/opt/venv/bin/python checks/run.py ' + pid, cwd=ROOT, env=env)
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            res.append('%s rc %d, %d violations%s' % (pid, r.returncode, len(v), '' if v else ' ' + r.stdout[-300:]))
    finally:
        shutil.rmtree(tmp)
        for f in (build, test, tmp + '.json'):
            if os.path.exists(f):
                os.unlink(f)
    print(sid, '|', ' | '.join(res), flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    chk = '--check' in a
    a = [x for x in a if x != '--check']
    pids = None
    if '--pids' in a:
        i = a.index('--pids')
        pids = a[i + 1].split(',')
        del a[i:i + 2]
    if not a or a == ['all']:
        a = sorted(f[:-3] for f in os.listdir(SRC) if f.endswith('.py') and f != 'tail.py')
    for sid in a:
        make(sid)
    if chk:
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
            list(ex.map(lambda sid: check(sid, pids), a))
