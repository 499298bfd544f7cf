"""(Re)generates /verif/seeded/<id>/ from the planted-bug definitions in
tools/bugs/*.py and confirms each one in a scratch copy of /repo: the patch applies,
the stable tests pass, the demonstration passes without it and fails with it.

  mkbugs.py [--check] [id ...]    --check also runs the property's quick check on the copy
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('pass', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
PRE = open(os.path.join(V, 'tools', 'bugs', 'prelude.txt')).read()


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', HOME='/root')
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def tests(copy, tmp):
    s = open('/opt/vp/test.sh').read().replace('/repo', copy)
    f = os.path.join(tmp, 'test.sh')
    open(f, 'w').write(s)
    rc, out = sh('bash %s %s/o.json' % (f, tmp))
    return out.strip().split('\n')[-1]


def one(bid, b, check):
    d = os.path.join(V, 'seeded', bid)
    tmp = tempfile.mkdtemp(prefix='mkbug-', dir='/tmp')
    copy = os.path.join(tmp, 'repo')
    try:
        sh('cp -a /repo %s' % copy)
        clean = os.path.join(tmp, 'clean')
        sh('cp -a /repo %s' % clean)
        for f, old, new in b['edits']:
            p = os.path.join(copy, f)
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                return '%s: %d occurrences of the text in %s' % (bid, t.count(old), f)
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        rc, diff = sh('git diff', cwd=copy)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\n'
            'PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # lines of the original repository only
        own = []
        rc, bl = sh('git diff -U0', cwd=copy)
        t = tests(copy, tmp)
        ok = t.startswith('53 passed')
        c, co = sh('bash %s/demo.sh' % d, cwd=clean)
        g, go = sh('bash %s/demo.sh' % d, cwd=copy)
        msg = '%-8s %s  tests[%s] demo clean=%d bug=%d' % (bid, b['property'], t, c, g)
        if not (ok and c == 0 and g != 0):
            msg += '  *** BAD\n' + co[-600:] + '\n--\n' + go[-600:]
        if check:
            t0 = time.time()
            r, out = sh('./check %s --tier quick' % b['property'], cwd=V, env=dict(VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=tmp))
            vl = [l for l in out.split('\n') if l.startswith(('VIOLATION', '  '))]
            msg += '  check rc=%d (%.0fs) %s' % (r, time.time() - t0, 'CAUGHT' if r == 1 and any('VIOLATION property=%s' % b['property'] in l for l in vl) else 'MISSED')
            if r == 1:
                msg += '\n          ' + ' | '.join(l.strip() for l in out.split('\n') if 'class' in l or 'VIOL' in l)[:300]
            elif r != 0:
                msg += '\n' + out[-500:]
        return msg
    finally:
        shutil.rmtree(tmp)


def main():
    check = '--check' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    bugs = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs', '*.py'))):
        bugs.update(runpy.run_path(f)['BUGS'])
    for bid in bugs:
        if ids and bid not in ids and bugs[bid]['property'] not in ids:
            continue
        print(one(bid, bugs[bid], check), flush=True)


main()
