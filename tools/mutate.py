#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes of arboris, tried one at a time in
scratch copies. A mutant that still passes the stable tests is shown to the checks;
the ones which no check reports are listed, to be judged by hand (equivalent,
outside every property, or a hole in a check).

  mutate.py gen OUT.jsonl FILE...        list the mutants of arboris/FILE
  mutate.py test IN.jsonl OUT.jsonl      keep the mutants which pass the stable tests
  mutate.py kill IN.jsonl OUT.jsonl RUNS [CHECKS]   run the checks on them
"""
import ast
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor, as_completed
import queue

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
STABLE = json.load(open('/opt/vp/BASELINE.json'))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}


def muts(path):
    src = open(path, encoding='utf-8', newline='').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return (off[n.end_lineno - 1] + n.end_col_offset) if end else (off[n.lineno - 1] + n.col_offset)

    def seg(n):
        return b[pos(n):pos(n, True)].decode()
    out = []

    def add(n, new, what, s=None, e=None):
        s = pos(n) if s is None else s
        e = pos(n, True) if e is None else e
        out.append(dict(start=s, end=e, new=new, old=b[s:e].decode(), what=what, line=n.lineno))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        body = getattr(n, 'body', None)
        if fn:
            mutate(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant) and isinstance(c.value.value, str):
                continue
            k = len(out)
            visit(c, fn)
            for m in out[k:]:
                m.setdefault('fn', '.'.join(fn))

    def mutate(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '(%s) %s (%s)' % (seg(l), o, seg(r)), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                return
            add(n, '(%s) %s (%s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'arith')
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            a, c = seg(n.values[0]), seg(n.values[1])
            add(n, '((%s) %s (%s))' % (a, 'or' if isinstance(n.op, ast.And) else 'and', c), 'bool')
            add(n, '(%s)' % a, 'bool-left')
            add(n, '(%s)' % c, 'bool-right')
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.USub, ast.Not)):
                add(n, '(%s)' % seg(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const')
            elif isinstance(v, (int, float)):
                add(n, repr(v + 1), 'const')
                if v != 0:
                    add(n, '0' if isinstance(v, int) else repr(v * 0.5), 'const')
        elif isinstance(n, ast.If):
            add(n.test, 'True', 'if-true')
            add(n.test, 'False', 'if-false')
        elif isinstance(n, ast.IfExp):
            add(n, '(%s)' % seg(n.body), 'ifexp')
            add(n, '(%s)' % seg(n.orelse), 'ifexp')
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom))):
                add(n, 'pass', 'del-stmt')
        elif isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                add(n, 'pass', 'del-assign')
        elif isinstance(n, (ast.Continue,)):
            add(n, 'break', 'cont')
        elif isinstance(n, (ast.Break,)):
            add(n, 'pass', 'brk')
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if isinstance(f, ast.Attribute) and f.attr == 'copy' and not n.args:
                add(n, seg(f.value), 'nocopy')
            if name in ('array', 'copy') and len(n.args) == 1 and not isinstance(n.args[0], (ast.List, ast.Tuple)):
                add(n, '(%s)' % seg(n.args[0]), 'nocopy')
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) \
                    and name not in ('isinstance', 'zip', 'hasattr', 'getattr'):
                s, e = pos(n.args[0]), pos(n.args[1], True)
                add(n, '%s, %s' % (seg(n.args[1]), seg(n.args[0])), 'swap-args', s, e)
            if name in ('max', 'min'):
                add(f, 'min' if name == 'max' else 'max', 'minmax')
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            add(n, seg(n.value), 'noT')
        elif isinstance(n, ast.Try):
            if n.finalbody:
                s, e = pos(n.finalbody[0]), pos(n.finalbody[-1], True)
                add(n, 'pass', 'del-finally', s, e)
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n.value, 'None', 'ret-none')
    visit(tree, [])
    res, seen = [], set()
    for m in out:
        t = (b[:m['start']] + m['new'].encode() + b[m['end']:]).decode()
        h = hashlib.sha1(t.encode()).hexdigest()
        if h in seen or m['new'] == m['old']:
            continue
        seen.add(h)
        try:
            compile(t, path, 'exec')
        except SyntaxError:
            continue
        m['h'] = h[:10]
        res.append(m)
    return res


def copies(n):
    base = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    q = queue.Queue()
    for i in range(n):
        d = os.path.join(base, 'w%d' % i)
        shutil.copytree(REPO, d, symlinks=True)
        q.put(d)
    return base, q


def apply(d, m):
    p = os.path.join(d, m['file'])
    b = open(os.path.join(REPO, m['file']), 'rb').read()
    open(p, 'wb').write(b[:m['start']] + m['new'].encode() + b[m['end']:])


def restore(d, m):
    shutil.copyfile(os.path.join(REPO, m['file']), os.path.join(d, m['file']))


def stable_ok(d):
    s = open('/opt/vp/test.sh').read().replace('/repo', d).replace('--timeout=300', '--timeout=30 -x')
    out = os.path.join(d, '.mut.json')
    f = os.path.join(d, '.mut.sh')
    open(f, 'w').write(s.replace(' -x', ''))
    try:
        subprocess.run(['bash', f, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        r = json.load(open(out))
    except Exception:
        return False
    finally:
        for x in (f, out):
            if os.path.exists(x):
                os.unlink(x)
    ok = set(r.get('passed') or [k for k, v in r.get('tests', {}).items() if v == 'passed'])
    want = set(STABLE.get('stable') or STABLE.get('passed') or STABLE.get('tests'))
    return want <= ok


def main():
    cmd = sys.argv[1]
    os.makedirs('/tmp/mut', exist_ok=True)
    if cmd == 'gen':
        with open(sys.argv[2], 'w') as o:
            for f in sys.argv[3:]:
                for m in muts(os.path.join(REPO, 'arboris', f)):
                    m['file'] = 'arboris/' + f
                    o.write(json.dumps(m) + '\n')
        return
    ms = [json.loads(l) for l in open(sys.argv[2])]
    done = {}
    if os.path.exists(sys.argv[3]):
        done = {(m['file'], m['h']): m for m in map(json.loads, open(sys.argv[3]))}
    ms = [m for m in ms if (m['file'], m['h']) not in done]
    base, q = copies(8)
    o = open(sys.argv[3], 'a')

    def test(m):
        d = q.get()
        try:
            apply(d, m)
            m['alive'] = stable_ok(d)
        finally:
            restore(d, m)
            q.put(d)
        return m

    def kill(m):
        d = q.get()
        m['by'] = None
        m['err'] = []
        try:
            apply(d, m)
            for c in (sys.argv[5].split(',') if len(sys.argv) > 5 else order(m['file'], m.get('fn', ''))[:int(os.environ.get('TOP', '99'))]):
                env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, '.ev'))
                n = int(sys.argv[4])
                n = max(12, int(n * SHARE.get(c, 1)))
                try:
                    p = subprocess.run([os.path.join(VERIF, 'check'), c, '--runs', str(n), '--jobs', '1', '--wall', '100',
                                        '--no-shrink', '--seed', '1'], env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=400)
                    rc, out = p.returncode, p.stdout.decode(errors='replace')
                except subprocess.TimeoutExpired:
                    rc, out = 99, 'timeout'
                if rc == 1 and ' violates ' in out:
                    m['by'] = c
                    m['msg'] = ([l for l in out.split('\n') if ' violates ' in l] + [''])[0][:300]
                    break
                if rc:
                    m['err'].append([c, rc, out[-600:]])
        finally:
            restore(d, m)
            q.put(d)
        return m
    try:
        with ThreadPoolExecutor(int(os.environ.get('WORKERS', 8))) as ex:
            for m in unordered(ex, test if cmd == 'test' else kill, ms):
                if cmd != 'test' or m['alive']:
                    pass
                o.write(json.dumps(m) + '\n')
                o.flush()
    finally:
        shutil.rmtree(base)


def unordered(ex, fn, ms):
    for f in as_completed([ex.submit(fn, m) for m in ms]):
        yield f.result()


SHARE = {'C10': .15, 'C13': .6, 'C14': .4, 'C19': .3}
ORDER = {
    'core.py': 'C01 C02 C11 C15 C08 C09 C10 C12 C13 C03 C17 C16 C14 C19 C18 C20 C04 C05 C06 C07',
    'constraints.py': 'C04 C05 C06 C07 C08 C17 C18 C20 C12 C09 C10',
    'collisions.py': 'C18 C06 C07 C12 C10 C17 C08',
    'controllers.py': 'C03 C01 C10 C09 C17 C08',
    'joints.py': 'C02 C01 C03 C04 C15 C09 C13 C10 C17',
    'observers.py': 'C12 C13 C14 C16 C11 C10 C19 C09',
    'massmatrix.py': 'C12 C01 C17 C19 C10',
    'homogeneousmatrix.py': 'C02 C01 C18 C06 C19 C12 C10',
    'adjointmatrix.py': 'C01 C02 C12',
    'twistvector.py': 'C01 C02 C17',
    'rigidmotion.py': 'C02 C01',
    'shapes.py': 'C18 C10 C19 C06',
    'dae_writer.py': 'C19 C14 C10',
    'visu_collada.py': 'C19 C14',
    'world_drawer.py': 'C19 C14',
    '__init__.py': 'C19 C14',
}


def order(f, fn):
    return ORDER.get(os.path.basename(f), 'C01 C02 C12').split()


if __name__ == '__main__':
    main()
