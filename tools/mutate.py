#!/opt/venv/bin/python
"""Small changes, one at a time, to every statement of the engine: which of the checks notices each.
mutate.py OUT.jsonl [N] [file...]: N of them by chance (all without N), on JOBS workers, each with
copies of /repo and of /verif.  Changes which the existing tests notice are left out.
EXECUTED=file: only in lines of the file, each "pyexec/<file>\t<text of the line>"."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'pyee/pyexec/'
#: which checks to ask, the likeliest first
ASK = {
    'iconscore/icon_container_db.py': 'C03 C04 C01 C15 C06',
    'database/db.py': 'C03 C06 C04 C01 C05 C08 C02',
    'database/factory.py': 'C03 C09',
    'iconscore/icon_score_base.py': 'C01 C16 C17 C11 C13 C12 C21 C05 C08 C09 C10 C14 C19 C23',
    'iconscore/icon_score_base2.py': 'C22 C17 C01 C20',
    'iconscore/icon_score_eventlog.py': 'C16 C15 C01 C08',
    'iconscore/internal_call.py': 'C17 C08 C01 C07',
    'iconscore/icon_score_step.py': 'C06 C07 C08 C01',
    'iconscore/icon_score_context.py': 'C01 C09 C05 C08 C10',
    'iconscore/icon_score_mapper.py': 'C19 C18 C10 C01',
    'iconscore/icon_score_loader.py': 'C19 C18',
    'iconscore/score_package_validator.py': 'C18 C19',
    'iconscore/score_api_generator.py': 'C13 C12 C14',
    'iconscore/typing/__init__.py': 'C12 C13 C14',
    'iconscore/typing/definition.py': 'C12 C13 C14',
    'iconscore/typing/element.py': 'C13 C12 C14 C11 C10',
    'base/type_converter.py': 'C14 C15 C12',
    'base/type_converter_templates.py': 'C14 C15',
    'base/address.py': 'C20 C15 C23',
    'base/exception.py': 'C10 C01 C17',
    'base/block.py': 'C01 C09',
    'base/transaction.py': 'C01 C09',
    'base/message.py': 'C01 C09',
    'ipc/proxy.py': 'C01 C02 C15 C10 C03 C17 C12 C21 C05',
    'ipc/client.py': 'C01 C02 C15',
    'service_engine.py': 'C10 C01 C11 C05 C21 C14 C07 C23',
    'pyexec.py': 'C01 C10 C05 C02 C09 C21 C19 C12',
    'utils/plain.py': 'C15 C23 C10 C01',
    'utils/__init__.py': 'C15 C20 C03',
    'utils/stack.py': 'C09 C01',
    'logger/utils.py': 'C23 C10 C01',
    'logger/logger.py': 'C23 C10 C01',
}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<'}


def changes(src):
    """(start, end, text, line)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    base = [0]
    for ln in lines:
        base.append(base[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    pos = lambda n: (base[n.lineno - 1] + n.col_offset, base[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def add(n, t):
        a, b = pos(n)
        out.append((a, b, t, n.lineno))

    def between(l, r, ops, new):
        a, b = pos(l)[1], pos(r)[0]
        t = raw[a:b].decode()
        for o in ops:
            if o in t:
                out.append((a, b, t.replace(o, new, 1), l.lineno))
                return

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip.add(a.annotation)
            if n.returns:
                skip.add(n.returns)
        if isinstance(n, ast.AnnAssign):
            skip.add(n.annotation)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n)
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
            skip.add(n)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'Logger.' in text(n.value.func) + '.' or \
                isinstance(n, ast.If) and 'TYPE_CHECKING' in text(n.test):
            skip.add(n)

    def walk(n):
        if n in skip:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in',
                   ast.Is: 'is', ast.IsNot: 'is not'}[type(o)]
            for new in CMP[type(o)]:
                between(n.left, n.comparators[0], [sym], new)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|',
                   ast.LShift: '<<', ast.RShift: '>>'}[type(n.op)]
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                between(n.left, n.right, [sym], BIN[type(n.op)])
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                add(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % x for x in rest))
            a, b = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            between(n.values[0], n.values[1], [a], b)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v))
            elif type(v) is int:
                add(n, str(v + 1))
                if v:
                    add(n, str(v - 1))
            elif type(v) is str and v:
                add(n, repr(v + 'x'))
            elif type(v) is bytes:
                add(n, repr(v + b'x'))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, 'not (%s)' % text(n.test))
            add(n.test, 'True')
            add(n.test, 'False')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n.value, 'None')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n.type, 'ZeroDivisionError')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Assert, ast.Continue, ast.Break)):
            add(n, 'pass')
        if isinstance(n, ast.Call):
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args
                out.append((pos(a)[0], pos(b)[1], '%s, %s' % (text(b), text(a)), n.lineno))
            for k in n.keywords:
                if k.arg:
                    add(k.value, 'None')
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                walk(d)
            for b in n.body:
                walk(b)
            if len(n.decorator_list):
                pass
            return
        if isinstance(n, ast.Raise):
            return              # what it says is not of interest; that it is raised is
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(tree)
    res = []
    for a, b, t, ln in out:
        new = raw[:a] + t.encode() + raw[b:]
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                res.append((a, b, t, ln))
        except SyntaxError:
            pass
    return sorted(set(res))


def sh(cmd, timeout, **k):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'slow', ''


class Worker(threading.Thread):
    lock = threading.Lock()

    def __init__(self, work, out):
        super().__init__()
        self.work, self.out = work, out

    def run(self):
        self.tmp = tmp = tempfile.mkdtemp(prefix='mutate.')
        try:
            subprocess.check_call('mkdir {0}/repo {0}/verif; git -C /repo archive HEAD pyee cmd/eetest testsuite/data | tar -x -C {0}/repo; '
                                  'cp -a {1}/lib {1}/spec {1}/checks {1}/KNOWN_FINDINGS.md {0}/verif'.format(tmp, ROOT), shell=True)
            while True:
                with self.lock:
                    if not self.work:
                        return
                    m = self.work.pop()
                r = self.one(*m)
                with self.lock:
                    self.out.write(json.dumps(r) + '\n')
                    self.out.flush()
        finally:
            shutil.rmtree(tmp)

    def one(self, f, a, b, t, ln):
        path = os.path.join(self.tmp, 'repo', P + f)
        orig = open(path, 'rb').read()
        res = {'file': f, 'line': ln, 'old': orig[a:b].decode(), 'new': t, 'src': orig.decode().split('\n')[ln - 1].strip(), 'runs': {}}
        open(path, 'wb').write(orig[:a] + t.encode() + orig[b:])
        try:
            env = dict(os.environ, PYTHONPATH=self.tmp + '/repo/pyee', PYTHONDONTWRITEBYTECODE='1')
            rc, _ = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider', 60, cwd=self.tmp + '/repo/pyee', env=env)
            if rc != 0:
                res['by'] = 'tests'
                return res
            env = dict(os.environ, VERIF_REPO=self.tmp + '/repo', VERIF_ENOUGH='1', VERIF_SEED='1', VERIF_TIER='quick')
            for p in ASK[f].split():
                rc, o = sh('/opt/venv/bin/python checks/run.py ' + p, 600, cwd=self.tmp + '/verif', env=env)
                res['runs'][p] = rc
                if rc == 1:
                    res['by'] = p
                    res['how'] = next((x for x in o.split('\n') if x.startswith('  ')), '')[:200]
                    return res
            res['by'] = None
            return res
        finally:
            open(path, 'wb').write(orig)


if __name__ == '__main__':
    out, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 0
    files = sys.argv[3:] or sorted(ASK)
    work = []
    for f in files:
        src = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + P + f], text=True)
        work += [(f,) + c for c in changes(src)]
    print(len(work), 'changes', flush=True)
    done = set()
    if os.path.exists(out):
        done = {(x['file'], x['line'], x['old'], x['new']) for x in map(json.loads, open(out))}
    if os.environ.get('EXECUTED'):
        ex = set(open(os.environ['EXECUTED']).read().split('\n'))
        text = {f: subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + P + f], text=True).split('\n') for f in files}
        work = [w for w in work if 'pyexec/%s\t%s' % (w[0], text[w[0]][w[4] - 1].strip()) in ex]
        print(len(work), 'in executed lines', flush=True)
    random.Random(1).shuffle(work)
    if n:
        work = work[:n]
    if n == -1:
        sys.exit()
    with open(out, 'a') as o:
        ws = [Worker(work, o) for _ in range(int(os.environ.get('JOBS', '6')))]
        for w in ws:
            w.start()
        for w in ws:
            w.join()
